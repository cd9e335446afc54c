"""variable server: published values, messages and client schedules"""
import os, re
from vk import *
import flow as F
from flow import pp, _addr, M
from rules.values import outs, manip, lit, alts, int_forms, INTS, NAME, OUTW, core_t, text_of, printable
VS = 'trick_source/sim_services/VariableServer/'
VR = 'VariableReference'
NOTBAD = {'atom:&VariableReference::_bad_ref_int==this._var_info.address': 0}
SZ = {1: [1], 2: [1], 4: [2], 5: [2], 6: [4], 7: [4], 8: [8], 9: [8], 10: [4], 11: [8], 12: [1, 2, 4], 13: [1, 2, 4], 14: [8], 15: [8], 17: [1], 21: [1, 2, 4]}
TRIV = 'cv_get_trivial()==this._conversion_factor'
NTYPES = None

def itype(T, S):
    if T in INTS: return INTS[T]
    if T == 21: return ('i%d' % (8 * S), S, 1)
    if T == 1: return ('i8', 1, 1)

def iters(d):
    """values of the counter over a counted loop with constant bounds, with the printed counter"""
    m = re.fullmatch(r'\w+ in (\d+)\.\.(\d+)', d)
    if m: return list(range(int(m[1]), int(m[2]))), f'count({m[1]},1)'
    m = re.fullmatch(r'while \(count\((-?\d+),(-?\d+)\) (<|>=|>|<=) (-?\d+)\)', d)
    if not m: return None, None
    a, s, k = int(m[1]), int(m[2]), int(m[4])
    op = {'<': lambda x: x < k, '>=': lambda x: x >= k, '>': lambda x: x > k, '<=': lambda x: x <= k}[m[3]]
    out = []
    while op(a) and len(out) < 40: out.append(a); a += s
    return out, f'count({m[1]},{m[2]})'

def elems(txt, S):
    """element address inside a printed value -> @ when it steps through the write buffer by S"""
    strides = set()
    def rec(m):
        strides.add(int(m[1])); return '@'
    txt = re.sub(r'\*rec\(this\._write_buffer;(?:ite\(\[(?:[^\[\]])*\],self,self\+\d+\)|self\+\d+)\)', lambda m: rec(re.search(r'self\+(\d+)\)', m[0])), txt)
    txt = re.sub(r'this\._write_buffer\[(?:(\d+)\*)?count\(0,(\d+)\)\]', lambda m: (strides.add(int(m[1] or 1) * int(m[2])), '@')[1], txt)
    return txt, strides

def supp(g):
    seen, out = set(), set()
    st = [g]
    while st:
        x = st.pop()
        if x <= 1 or x in seen: continue
        seen.add(x)
        v, lo, hi = M.nodes[x]
        out.add(M.vars[v]); st += [lo, hi]
    return out

def trivial(g, env):
    """does the guard imply / exclude that the conversion is trivial"""
    for k in supp(g):
        if k[0] == 'EQ' and 'cv_get_trivial()' in (pp(k[1]), pp(k[2])) and 'this._conversion_factor' in (pp(k[1]), pp(k[2])):
            v = M.var(k)
            return F.may(M.AND(g, M.NOT(v)), env) == {0}, F.may(M.AND(g, v), env) == {0}
    return False, False

def ascii_value(r, lab, f, T, S, name):
    o = outs(f)
    loops = [x for x in o if x[2].loops]
    vals = [x for x in loops if lit(x[1]) is None and not manip(x[1])]
    if not vals: return r.ob(lab, False, ' nothing is printed', f.label)
    seps = [x for x in loops if lit(x[1]) is not None]
    d = vals[0][2].loops[0]
    its, cnt = iters(d)
    if its is None or any(x[2].loops != (d,) for x in loops): return r.undecided(lab, ' loop ' + d[:80])
    r.ob(lab + ': every element is printed', len(its) == 3, f' {len(its)} of 3 elements ({d})', vals[0][2].loc)
    for k, c in enumerate(its):
        env = {cnt: c}
        n = [x for x in vals if F.may(x[2].guard, env) == {1}]
        cond = [x for x in vals if F.may(x[2].guard, env) == {0, 1}]
        if cond:
            if F.norm(M.AND(M.NOT(r.tot([x[2] for x in vals])), gx(t(cnt) == c))) != 0: r.undecided(lab + ': every element is printed once', ' form')
        else: r.ob(lab + ': every element is printed once', len(n) == 1, f' {len(n)} outputs', vals[0][2].loc)
        s = [x for x in seps if F.may(x[2].guard, env) != {0}]
        if len(its) == 3: r.ob(lab + ': a comma between elements', [lit(x[1]) for x in s] in ([[','], [','], []][k], ) or (k and seps and seps[0][2].order < vals[0][2].order and [lit(x[1]) for x in s] == [[], [','], [',']][k]), f' element {k}: {[lit(x[1]) for x in s]}', r.at([x[2] for x in s], f))
    for ov, v, e in vals:
        for a, g in alts(v, e.guard):
            txt, st = elems(pp(a), S)
            if '@' not in txt: r.undecided(lab, ' ' + txt[:100]); continue
            r.ob(lab + ': elements are one size apart', st == {S}, str(st), e.loc)
            triv, conv_only = trivial(g, {cnt: its[0]})
            if T in (10, 11):
                v_ = 'float' if T == 10 else 'double'
                ok = [f'cv_convert_{v_}(this._conversion_factor,{v_}(@))', f'cv_convert_double(this._conversion_factor,fpext(float(@)))'][:2 if T == 10 else 1]
                r.ob(lab, txt in ok or (triv and txt == f'{v_}(@)'), ' is ' + txt, e.loc)
                r.ob(lab + ': as a floating point number', ov in ('float', 'double') and not (T == 11 and ov == 'float'), ov, e.loc)
                ps = [manip(x[1]) for x in o if manip(x[1]) and manip(x[1])[0] == 'setprecision' and x[2].order < e.order]
                r.ob(lab + ': digits', bool(ps) and ps[-1][1] >= (8 if T == 10 else 16), str(ps), e.loc)
                continue
            if T in (12, 13):
                fn = 'extract_bitfield_any' if T == 12 else 'extract_unsigned_bitfield_any'
                c = core_t(a)
                a_ = [elems(pp(x), S)[0] for x in c[2:]] if c[0] == 'ret' else []
                x = f'i{8*S}(@)'
                r.ob(lab, c[0] == 'ret' and c[1] == fn and a_[0] in (x, f'sext({x})', f'zext({x})') and a_[1] in (str(S), 'this._var_info.attr.size') and a_[2:] == ['this._var_info.attr.index.start', 'this._var_info.attr.index.size'], ' is ' + txt, e.loc)
                r.ob(lab + ': signedness', ov in OUTW and OUTW[ov][0] >= 4 and bool(OUTW[ov][1]) == (T == 12), ov, e.loc)
                continue
            if T == 17:
                m = re.fullmatch(r'(?:toint|touint)\(cv_convert_double\(this\._conversion_factor,u?tofp\((ite\(\[\(i8\(@\)\)\],1,0\)|(?:zext|sext)?\(?i8\(@\)\)?|zext\(ite\(\[\(i8\(@\)\)\],1,0\)\))\)\)\)|ite\(\[\(i8\(@\)\)\],1,0\)|(?:zext\()?i8\(@\)\)?', txt)
                r.ob(lab, bool(m) and ov in OUTW, ' is ' + txt, e.loc)
                continue
            ir, w, sg = itype(T, S)
            x = f'{ir}(@)'
            ext = 'sext' if sg else 'zext'
            conv = {f'cv_convert_double(this._conversion_factor,{q})' for q in ([f'tofp({x})', f'tofp(sext({x}))'] if sg else [f'utofp({x})', f'utofp(zext({x}))', f'tofp(zext({x}))'])}
            forms = {f'{c}({y})' for c in ('toint', 'touint') for y in conv} | {f'{c2}({c}({y}))' for c in ('toint', 'touint') for y in conv for c2 in ('trunc', 'sext', 'zext')}
            if txt in forms:
                if w == 8: r.ob(lab + ': 64 bit values do not pass through a double', conv_only, ' ' + txt, e.loc)
                r.ob(lab, (not txt.startswith('touint') or not sg), ' is ' + txt, e.loc)
            elif txt in (x, f'{ext}({x})'): r.ob(lab, triv, ' the conversion factor is not applied', e.loc)
            elif '(@)' in txt: r.ob(lab, False, ' is ' + txt, e.loc); continue
            else: r.undecided(lab, ' ' + txt[:120]); continue
            # an unsigned value of the full width needs an unsigned overload, a signed value a signed one
            ok = ov in OUTW and (OUTW[ov][0] > w or OUTW[ov][0] == w and OUTW[ov][1] == sg) and (not sg or OUTW[ov][1])
            r.ob(lab + ': printed in its own width and sign', ok, ov, e.loc)

def escaped(r, lab, f, arr):
    """text of a string: every byte printed as its character or as an escape of its code"""
    o = [x for x in outs(f) if x[2].loops and (lit(x[1]) != ',')]
    inner = [x for x in o if len(x[2].loops) >= 2] or o
    sp = [(pp(e.args[0]), e) for e in r.sel(f, 's?n?printf') if e.loops]
    lds = set()
    for _, a, e in inner:
        for m in re.finditer(r'i8\(', pp(a)):
            x = pp(a)[m.end():]; n = 1
            for k, c in enumerate(x):
                n += (c == '(') - (c == ')')
                if not n: lds.add(x[:k]); break
    if len(lds) != 1: return r.undecided(lab, f' bytes {[x[:60] for x in sorted(lds)][:3]}')
    ld = lds.pop()
    seq = []
    for ov, a, e in inner:
        q = [x for d, x in sp if d == pp(a)] or [x for d, x in sp if x.order == e.order - 1 and 'out' in pp(a)[:6]]
        if q: seq.append(('printf', (q[0].args[1], q[0].args[2]) if q[0].name == 'sprintf' else (q[0].args[2], q[0].args[3]), e))
        else: seq.append((ov, a, e))
    FIX = {10: '\\n', 9: '\\t', 8: '\\b', 7: '\\a', 12: '\\f', 11: '\\v'}
    for c in range(1, 256):
        s_ = c - 256 if c > 127 else c
        x = f'i8({ld})'
        env = {x: s_, f'sext({x})': s_, f'zext({x})': c, ld: s_}
        for y in (f'sext({x})', f'zext({x})', f'i8({ld})'): env[f'isprint({y})'] = int(printable(c))
        for k in ('count(0,1)',): env[k] = 0
        out = ''
        for ov, a, e in seq:
            m = F.may(e.guard, env)
            if m == {0}: continue
            # what is not about the byte (bounds of the loops) lets the output happen
            if ov == 'printf':
                fm = lit(a[0])
                try: v = F.ev(a[1], env)
                except F.Unknown: return r.undecided(lab, f' escape of byte {c}')
                mm = re.fullmatch(r'(.*)%(0?)(\d*)(hh)?([xXo])', fm or '')
                if not mm: return r.undecided(lab, f' format {fm!r}')
                if mm[4]: v &= 255
                h = ('%x' if mm[5] in 'xX' else '%o') % (v & 0xffffffff)
                out += mm[1] + h.rjust(int(mm[3] or 0), '0' if mm[2] else ' ')
            elif lit(a) is not None: out += lit(a)
            elif ov in ('char', 'signed char', 'unsigned char'):
                try: out += chr(F.ev(a, env) & 255)
                except F.Unknown: return r.undecided(lab, f' byte {c}')
            else: return r.undecided(lab, f' {ov}')
        want = {chr(c)} if printable(c) else {FIX[c]} if c in FIX else {'\\r', '\\n'} if c == 13 else {f'\\x{c:02x}'}
        if out not in want: return r.ob(lab, False, f' byte {c} is printed as {out!r}', inner[0][2].loc)
    r.ob(lab, True)
    r.stats['bytes_evaluated'] = r.stats.get('bytes_evaluated', 0) + 255

def v02(r):
    u = r.unit([VS + 'VariableReference.cpp'])
    p = u.extract(roots=[VR + r'::', r'operator<<\(.*VariableReference'], opaque=['message_publish', 'effective_trick', 'is_stl_ref', r'make_error_ref', r'make_do_not', r'VariableReference::tagAsInvalid\(', r'VariableReference::validate\(', r'byteswap_var'])
    hdr = open(os.path.join(REPO, 'include/trick/parameter_types.h')).read()
    m = re.search(r'TRICK_NUMBER_OF_TYPES\s*=?\s*(\d+)', hdr)
    base = {'this._write_ready': 1}
    # ---- text
    for T, sizes in SZ.items():
        for S in sizes:
            if T in (1, 2): variants = [('', {'this._var_info.attr.num_index': 1, 'this._var_info.num_index': 1})]
            else: variants = [('', {})]
            if T in (6, 11): variants.append((' in an STL container', {'this._trick_type': 24, 'this._var_info.attr.stl_elem_type': T}))
            for sfx, extra in variants:
                c = {'this._trick_type': T, **base, 'this._var_info.attr.size': S, 'this._size': 3 * S, **extra}
                f = r.flow(p, VR + '::writeValueAscii', typed=True, streams=True, consts=c)
                ascii_value(r, f'a published {NAME[T]}' + (f' of {S} bytes' if len(sizes) > 1 else '') + sfx + ' is printed as its value', f, T, S, NAME[T])
    for T, nm, ex in ((1, 'char array', {'this._var_info.attr.num_index': 1, 'this._var_info.num_index': 0, 'this._var_info.attr.size': 1}), (2, 'unsigned char array', {'this._var_info.attr.num_index': 1, 'this._var_info.num_index': 0, 'this._var_info.attr.size': 1}), (3, 'string', {'this._var_info.attr.size': 32})):
        f = r.flow(p, VR + '::writeValueAscii', typed=True, streams=True, consts={'this._trick_type': T, **base, **ex})
        lab = f'a published {nm} is printed byte by byte, with escapes'
        ins = [x for x in outs(f) if len(x[2].loops) >= 2]
        if not ins: r.undecided(lab, ' form'); continue
        escaped(r, lab, f, T != 3)
    if m:
        f = r.flow(p, VR + '::writeValueAscii', typed=True, streams=True, consts={'this._trick_type': int(m[1]), **base, 'this._var_info.attr.size': 4, 'this._size': 4})
        o = [x for x in outs(f) if x[2].loops and F.may(x[2].guard, {'count(0,4)': 0, 'count(0,1)': 0}) != {0}]
        r.ob('a reference that cannot be resolved is published as BAD_REF', [lit(x[1]) for x in o] == ['BAD_REF'], str([pp(x[1])[:40] for x in o]), f.label)
    f = r.flow(p, VR + '::writeValueAscii', typed=True, streams=True, consts={'this._trick_type': 11, 'this._write_ready': 0})
    r.ob('nothing is published before a value is ready', not outs(f), '', f.label)
    f = r.flow(p, VR + '::writeValueAscii', typed=True, streams=True, consts={'this._trick_type': 11, **base, 'this._var_info.attr.size': 8, 'this._size': 8})
    un = [x for x in outs(f) if not x[2].loops and not manip(x[1])]
    inl = [x for x in outs(f) if x[2].loops]
    for k, mm, want in ((0, 0, ''), (1, 0, ' {UNITS}'), (2, 0, ' {UNITS}'), (1, 4, ' {--}'), (0, 4, '')):
        env = {'size(this._requested_units)': k, **{f'and({q},this._var_info.attr.mods)': q & mm for q in (1, 2, 4, 8, 16, 32)}}
        s, ok = '', True
        for ov, a, e in un:
            q = F.may(e.guard, env)
            if q == {0}: continue
            if q != {1}: ok = False
            s += lit(a) if lit(a) is not None else 'UNITS' if pp(a) == 'this._requested_units' else '?'
        if not ok or '?' in s: r.undecided('units of a published value', f' {s}')
        else: r.ob('a value with requested units is followed by its units', s == want, f' {s!r} instead of {want!r}', r.at([x[2] for x in un], f))
    r.ob('the units follow the value', all(x[2].order > y[2].order for x in un for y in inl), '', r.at([x[2] for x in un], f))
    # ---- binary
    for T, sizes in SZ.items():
        for S in sizes:
            nm = f'a published {NAME[T]}' + (f' of {S} bytes' if len(sizes) > 1 else '')
            for sw in (0, 1):
                f = r.flow(p, VR + '::writeValueBinary', typed=True, streams=True, consts={'this._trick_type': T, 'this._var_info.attr.size': S, 'arg2': sw})
                ws = r.sel(f, r'stream::write')
                lab = nm + (' in the other byte order' if sw else '') + ' is sent as its bytes'
                if len(ws) != 1: r.ob(lab, bool(ws) and F.norm(r.tot(ws)) == 1, f' {len(ws)} writes', r.at(ws, f)); continue
                e = ws[0]
                r.same(lab + ' always', e.guard, TRUE, e.loc)
                r.ob(lab + ': size', pp(e.args[2]) == 'this._size', pp(e.args[2]), e.loc)
                bs = r.sel(f, r'.*byteswap_var')
                a = pp(e.args[1])
                if T in (12, 13):
                    fn = 'extract_bitfield_any' if T == 12 else 'extract_unsigned_bitfield_any'
                    x = f'i{8*S}(*this._write_buffer)'
                    good = {f'{fn}({y},{z},this._var_info.attr.index.start,this._var_info.attr.index.size)' for y in (x, f'sext({x})', f'zext({x})') for z in (str(S), 'this._var_info.attr.size')}
                    if sw: r.ob(lab, any(g in a for g in good) and bool(bs), ' is ' + a[:200], e.loc)
                    else: r.ob(lab, a in good and not bs, ' is ' + a[:200], e.loc)
                elif not sw: r.ob(lab, a == 'this._write_buffer' and not bs, ' is ' + a[:200], e.loc)
                else:
                    if not bs: r.ob(lab, False, ' the bytes are not swapped', e.loc); continue
                    q = [pp(x) for x in bs[0].args if pp(x) not in ('this', '*this')]
                    buf = q[0] if q else ''
                    if not buf.startswith(('calloc', 'malloc', 'new')): r.undecided(lab, ' ' + buf[:100]); continue
                    r.ob(lab, q[1] == 'this._write_buffer' and (a == buf or buf in a) and bs[0].order < e.order, f' {q} {a}'[:200], e.loc)
                    cap = re.fullmatch(r'calloc\((.*),1\)|calloc\(1,(.*)\)|malloc\((.*)\)|new\w*\[(.*)\]', buf)
                    if cap: r.ob(lab + ': the buffer holds the value', next(z for z in cap.groups() if z) == 'this._size', buf, e.loc)
    f = r.flow(p, VR + '::writeValueBinary', typed=True, streams=True, consts={'this._trick_type': 3, 'arg2': 0})
    ws = r.sel(f, 'stream::write')
    r.ob('a published string is sent as its bytes', len(ws) == 1 and [pp(x) for x in ws[0].args[1:]] == ['this._write_buffer', 'this._size'], '', r.at(ws, f))
    SW = {2: 'i16', 4: 'i32', 8: 'double'}
    for T, sizes in list(SZ.items()) + [(3, [1]), (19, [4]), (24, [2, 4, 8])]:
        for S in sizes:
            if T in (12, 13): continue
            c = {'arg3._var_info.attr.size': S if T not in (3, 19, 24) else 32, 'arg3._trick_type': T if T != 24 else 6, 'arg3._var_info.attr.type': T}
            if T == 24: c['arg3._size'] = S
            f = r.flow(p, VR + '::byteswap_var', params=3, typed=True, consts=c)
            lab = f'byte swapping {NAME[T]} of {S} bytes swaps every element'
            st = [e for e in f.effects if e.kind == 'store' and pp(e.addr).startswith(('arg1', '*arg1', '&arg1'))] or [e for e in f.effects if e.kind == 'store' and 'arg1' in _addr(e.addr)]
            if not st: r.ob(lab, bool(r.sel(f, 'memcpy|memmove|swab|.*byteswap.*')), ' nothing is stored', f.label); continue
            for e in st:
                want_n = (f'div(arg3._size,{S})', 'arg3._size') if S == 1 else (f'div(arg3._size,{S})',)
                if T == 24: want_n = ('1',)
                d = e.loops[0] if e.loops else ''
                its, cnt = iters(d)
                n = re.fullmatch(r'\w+ in 0\.\.(.*)', d) or its and re.fullmatch('(.*)', str(len(its)))
                if not n: r.undecided(lab, ' loop ' + d[:80]); continue
                r.ob(lab + ': all elements', n[1] in want_n, d, e.loc)
                idx = '*' if S == 1 and '[*]' in _addr(e.addr) else 'count(0,1)' if S == 1 else f'{S}*count(0,1)'
                r.ob(lab + ': in place', _addr(e.addr) == f'arg1[{idx}]', _addr(e.addr), e.loc)
                src = f'arg2[{idx}]'
                good = {f'i8({src})', src} if S == 1 else {f'trick_byteswap_short(i16({src}))'} if S == 2 else {f'trick_byteswap_int(i32({src}))', f'trick_byteswap_float(float({src}))'} if S == 4 else {f'trick_byteswap_double(double({src}))', f'trick_byteswap_long_long(i64({src}))', f'trick_byteswap_long(i64({src}))'}
                v = pp(e.val)
                if v in good: r.ob(lab, True)
                elif re.fullmatch(r'(trick_byteswap_\w+\()?\w+\((\*arg2|arg2\[[^\]]*\])\)+', v): r.ob(lab, False, ' is ' + v, e.loc)
                else: r.undecided(lab, ' ' + v[:100])
                r.same(lab + ': always', e.guard, M.OR(*[x.guard for x in f.effects if x.kind == 'loop' and x.name == d]), e.loc)
    for fn, val in (('Type', 'this._trick_type'), ('Size', 'this._size'), ('NameLength', 'size(this._name)')):
        for sw in (0, 1):
            f = r.flow(p, f'{VR}::write{fn}Binary', typed=True, streams=True, consts={'arg2': sw})
            ws = r.sel(f, 'stream::write')
            good = [f'trick_byteswap_int({val})', '4'] if sw else [val, '4']
            r.ob(f'the {fn.lower()} field of a published value' + (' in the other byte order' if sw else ''), len(ws) == 1 and [pp(x) for x in ws[0].args[1:]] == good, str([[pp(x) for x in e.args[1:]] for e in ws])[:200], r.at(ws, f))
            for e in ws: r.same(f'the {fn.lower()} field of a published value is always sent', e.guard, TRUE, e.loc)
    f = r.flow(p, f'{VR}::writeNameBinary', typed=True, streams=True)
    ws = r.sel(f, 'stream::write')
    r.ob('the name field of a published value', len(ws) == 1 and [pp(x) for x in ws[0].args[1:]] in (['c_str(this._name)', 'size(this._name)'], ['data(this._name)', 'size(this._name)']), str([[pp(x) for x in e.args[1:]] for e in ws])[:200], r.at(ws, f))
    for fn, val in (('getName', 'this._name'), ('getType', 'this._trick_type'), ('getSizeBinary', 'this._size'), ('isStaged', '(this._staged)'), ('isWriteReady', '(this._write_ready)')):
        f = r.flow(p, f'{VR}::{fn}', typed=False)
        v = f.retval()
        v = pp(v if v is not None else f.final('*sret'))
        if v == '*sret': continue
        r.ob(f'{fn} tells the state of the reference', v in (val, val.strip('()'), f'[{val}]'), v[:100], f.label)
    # ---- staging
    PN = {'this._var_info.pointer_present': 0, 'this._used_stl_indexing': 0}
    ALL = [('a plain variable', 6, 0, 'this._address', 'this._size', PN), ('a variable behind pointers', 6, 0, 'follow_address_path(this._var_info)', 'this._size', {'this._var_info.pointer_present': 1, 'this._used_stl_indexing': 0}),
           ('a dynamic array', 6, 1, '*this._var_info.address', 'this._size', PN), ('an std::string', 3, 0, 'c_str(*this._var_info.address)', 'strlen(c_str(*this._var_info.address))+1', PN),
           ('a char pointer', 3, 1, '*this._var_info.address', 'strlen(*this._var_info.address)+1', PN), ('an std::wstring', 19, 0, 'c_str(*this._var_info.address)', '4*wcslen(c_str(*this._var_info.address))+4', PN),
           ('a wchar_t pointer', 19, 1, '*this._var_info.address', '4*wcslen(*this._var_info.address)+4', PN)]
    for nm, T, de, src, sz, ex in ALL:
        f = r.flow(p, f'{VR}::stageValue', typed=True, consts={'this._trick_type': T, 'this._deref': de, f'atom:{src}': 1, **ex, **NOTBAD})
        lab = f'staging {nm} copies its current bytes'
        ms = r.sel(f, 'memcpy|memmove')
        if len(ms) != 1: r.ob(lab, False, f' {len(ms)} copies', r.at(ms, f)); continue
        e = ms[0]
        r.same(lab + ' always', e.guard, TRUE, e.loc)
        for a, g in alts(e.args[0], e.guard):
            t0 = pp(a)
            if t0 == 'this._stage_buffer':
                if T in (3, 19):
                    # the buffer as it is holds MAX_ARRAY_LENGTH bytes
                    fits = [x for x in range(4089, 4105) if F.may(g, {sz[:-2]: x - int(sz[-1]), sz[:-2].split('*', 1)[-1]: (x - 4) // 4 if T == 19 else x - 1}) != {0} and (T == 3 or x % 4 == 0)]
                    r.ob(lab + ': the buffer holds the text', not [x for x in fits if x > 4096], f' text of {[x for x in fits if x > 4096][:1]} bytes', e.loc)
            elif t0.startswith('realloc('): r.ob(lab + ': the buffer holds the text', t0 == f'realloc(this._stage_buffer,{sz})' or re.match(re.escape(f'realloc(this._stage_buffer,{sz}+'), t0) is not None, t0[:200], e.loc)
            else: r.ob(lab + ': into the stage buffer', False, t0[:150], e.loc)
        for a, g in alts(e.args[1], e.guard): r.ob(lab, pp(a) == src, ' copies ' + pp(a)[:150], e.loc)
        for a, g in alts(e.args[2], e.guard): r.ob(lab + ': size', pp(a) == sz, ' copies ' + pp(a)[:150], e.loc)
        if T in (3, 19):
            for a, g in alts(f.final('this._size'), TRUE): r.ob(lab + ': the size of the value is known to the writer', pp(a) == sz, pp(a)[:150], f.label)
        fin = {k: [pp(a) for a, g in alts(f.final('this.' + k), TRUE)] for k in ('_staged', '_write_ready')}
        r.ob(lab + ': the value is marked as staged and not yet ready', fin == {'_staged': ['1'], '_write_ready': ['0']}, str(fin), f.label)
    f = r.flow(p, f'{VR}::stageValue', typed=True, consts={'this._trick_type': 6, 'this._deref': 0, 'this._var_info.pointer_present': 1, 'this._used_stl_indexing': 0, **NOTBAD})
    ti = r.sel(f, '.*tagAsInvalid')
    r.same('a variable whose pointers lead nowhere becomes an invalid reference', r.tot(ti), ~b('follow_address_path(this._var_info)'), r.at(ti, f))
    va = r.sel(f, '.*::validate')
    r.same('addresses are validated when asked for', r.tot(va), b('follow_address_path(this._var_info)') & b('arg1'), r.at(va, f))
    f = r.flow(p, f'{VR}::prepareForWrite', typed=True)
    for k, v in (('_stage_buffer', 'this._write_buffer'), ('_write_buffer', 'this._stage_buffer'), ('_staged', '0'), ('_write_ready', '1')):
        r.final_is('a staged value becomes the value to write: ' + k, f, 'this.' + k, {v: b('this._staged'), ('this.' + k): ~b('this._staged')} if k != '_staged' else None) if k != '_staged' else r.ob('a staged value becomes the value to write: ' + k, F.norm(M.AND(r.tot([e for e in r.stores(f, 'this._staged') if pp(e.val) == '0']), gx(b('this._staged')))) == F.norm(gx(b('this._staged'))), '', f.label)
    # ---- room and size of a reference
    R = 'ref_attributes(c_str(*arg1))'
    for have in range(0, 4):
        for idx in range(0, have + 1):
            c = {f'atom:compare("time",*arg1)': 1, f'atom:ReferenceUtils::is_stl_ref({R})': 0, 'ReferenceUtils::effective_trick_type()': 6, f'{R}.attr.type': 6, f'atom:{R}': 1, f'atom:{R}.attr': 1, f'{R}.num_index': idx, f'{R}.attr.num_index': have}
            if have: c[f'{R}.attr.index[{8*(have-1)}].size'] = 3
            f = r.flow(p, VR + '::VariableReference', params=1, typed=True, consts=c)
            lab = f'a reference with {idx} of {have} indices holds all remaining elements'
            sts = r.stores(f, r'this\._size')
            got, bad = [], False
            for e in sts:
                if F.norm(e.guard) == 0: continue
                v = pp(e.val)
                if v == f'{R}.attr.size': got = ['SIZE']; continue
                its, cnt = iters(e.loops[0]) if e.loops else ([None], None)
                if its is None: bad = True; continue
                for i in its:
                    m2 = re.fullmatch(r'mul\((.*)\)', v)
                    q = m2 and [x for x in (m2[1].split(',', 1) if cnt is None else re.split(r',(?=this\._size$|ref_attr)', m2[1])) if x != 'this._size']
                    k = q and re.fullmatch(re.escape(R) + r'\.attr\.index(?:\[(?:(\d+)\*)?(count\([^)]*\)|\d+)\])?\.size', q[0])
                    if m2 and v == f'3*this._size' or not k: bad = True; continue
                    got.append(int(k[2]) // 8 if k[2] and k[2].isdigit() else (i * int(k[1] or 1)) // 8 if k[2] else 0)
            if bad or not got: r.undecided(lab, ' ' + str([pp(e.val)[:60] for e in sts])); continue
            r.ob(lab, got[:1] == ['SIZE'] and sorted(got[1:]) == list(range(idx, have)), f' size times extents {got[1:]} instead of {list(range(idx, have))}', r.at(sts, f))
            for k in ('_stage_buffer', '_write_buffer'):
                fv = pp(f.final('this.' + k))
                m3 = re.fullmatch(r'calloc\((.*),1\)|malloc\((.*)\)', fv)
                if m3: r.ob(lab + ': room for it', (m3[1] or m3[2]) in ('this._size', f'{R}.attr.size', f'3*{R}.attr.size') or 'mul(' in fv, fv[:150], f.label)
    f = r.flow(p, VR + '::VariableReference', params=1, typed=True, consts={f'atom:compare("time",*arg1)': 1, f'atom:ReferenceUtils::is_stl_ref({R})': 0, 'ReferenceUtils::effective_trick_type()': 3, f'{R}.attr.type': 3, f'atom:{R}': 1, f'atom:{R}.attr': 1, f'{R}.num_index': 0, f'{R}.attr.num_index': 0})
    for k in ('_stage_buffer', '_write_buffer'):
        m3 = re.fullmatch(r'calloc\((\d+),1\)', pp(f.final('this.' + k)))
        r.ob('a reference to a string has room for MAX_ARRAY_LENGTH bytes: ' + k, bool(m3) and int(m3[1]) >= 4096, pp(f.final('this.' + k))[:100], f.label)
    # ---- units
    P = lambda s: f'ut_parse(UdUnits::get_u_system(),c_str({s}),0)'
    for nm, xx, arg in (('units', 1, '*arg1'), ('xx', 0, 'this._base_units')):
        f = r.flow(p, VR + '::setRequestedUnits', typed=True, consts={**NOTBAD, 'atom:compare("xx",*arg1)': xx, f'atom:compare("--",{arg})': 1})
        new = f'map_trick_units_to_udunits({arg})'
        want = f'ut_get_converter({P("this._base_units")},{P(new)})'
        cs = [e for e in r.stores(f, r'this\._conversion_factor')]
        us = [e for e in r.stores(f, r'this\._requested_units')]
        if not cs or not us: r.ob('requested units are used', False, '', f.label); continue
        for e in cs: r.ob('values are converted from the units of the variable to the requested units', pp(e.val) == want, pp(e.val)[:250], e.loc)
        for e in us: r.ob('the requested units are remembered', pp(e.val) == new, pp(e.val)[:200], e.loc)
        ok = b(P('this._base_units')) & b(P(new)) & b(want)
        r.same('the conversion changes exactly when the units convert', r.tot(cs), ok, r.at(cs))
        r.same('the units change exactly when the conversion does', r.tot(us), r.tot(cs), r.at(us))
    f = r.flow(p, VR + '::setRequestedUnits', typed=True, consts={**NOTBAD, 'atom:compare("xx",*arg1)': 1, f'atom:compare("--",*arg1)': 0})
    r.ob('a request for no units changes nothing', not r.stores(f, r'this\._(conversion_factor|requested_units)'), '', f.label)
    return r.finish('For every published type and size: the printed value (conversion factor, width, sign, element stride, commas, escapes, units), the bytes sent in either byte order and the fields around them, the copy that is staged (source, size, room) and its hand-over to the writer, the number of elements of a partly indexed array.',
                    ['follow_address_path, cv_convert_*, ut_* and trick_byteswap_* do what their names say', 'printf and stream insertion of the C++ library are correct', 'the writer and the copier do not overlap (staging changes _size while it is written only if they do)'], 200)


def terms(t, kind):
    """subterms of a kind, outermost first"""
    if isinstance(t, tuple):
        if t and t[0] == kind: yield t
        for x in t: yield from terms(x, kind)

def recs(g):
    """accumulators a guard depends on"""
    out = []
    def term(t):
        if isinstance(t, tuple):
            if t and t[0] == 'rec': out.append(t)
            for x in t: term(x)
    for k in supp(g): term(k)
    return out

LIM = 8192
SIZES_B = [1, 2, 8, 100, 2048, 4095, 4096, 8100, 8150, 8160, 8165, 8168, 8169, 8170, 8171, 8172, 8173, 8180, 8188, 8192, 9000]
def seqs(xs):
    """sequences of value sizes that reach every boundary of a packet"""
    out = [[x] for x in xs]
    for x in xs:
        for y in (1, 7, 4000, 4090, 8150): out.append([y, x, 3])
    for k in range(8120, 8195): out.append([4000, k - 4000, 5]); out.append([20, k - 60, 20, 20])
    out += [[10] * 700, [100] * 170, [4000, 4100, 9000, 4100, 10]]
    return out

def pack_binary(r, f):
    """evaluates the packing recurrence of write_binary_data for sequences of sizes"""
    one = 'each *arg1'
    ef = sorted([e for e in f.effects if e.kind == 'call' and e.loops == (one,) and e.name in ('emplace_back', 'push_back', 'clear')], key=lambda e: e.order)
    fin = [e for e in f.effects if e.kind == 'call' and not e.loops and e.name in ('emplace_back', 'push_back')]
    L = 'binary messages'
    names = {e.name for e in ef}
    emp = [e for e in ef if e.name == 'emplace_back']
    if not emp or not fin or not [e for e in ef if e.name == 'push_back']: return r.undecided(L, ' form')
    acc = None
    for a in emp[0].args[1:]:
        def walk(t):
            nonlocal acc
            if isinstance(t, tuple):
                if t and t[0] == 'rec' and acc is None: acc = t
                for x in t: walk(x)
        walk(a)
    if acc is None: return r.undecided(L, ' no running size')
    G, N = 'VariableReference::getSizeBinary(arg1[*])', 'size(VariableReference::getName(arg1[*]))'
    n = 0
    for nn in (0, 1):
        for ss in seqs(SIZES_B):
            tot, cur, pk = F.ev(acc[1], {}), [], []
            env0 = {'this._binary_data_nonames': nn, 'count(0,1)': 0, 'size(*arg1)': 1 << 20, 'this._debug': 0}
            name = 7
            try:
                for s_ in ss:
                    env = {**env0, G: s_, N: name, pp(acc): tot}
                    for e in ef:
                        q = F.may(e.guard, env)
                        if q == {0}: continue
                        if q != {1}: raise F.Unknown('guard of ' + e.name)
                        if e.name == 'emplace_back':
                            pk.append((F.ev(next(a for a in e.args[1:] if 'rec(' in pp(a)), env), cur))
                        elif e.name == 'clear': cur = []
                        else: cur = cur + [s_]
                    tot = F.ev(acc[2], {**env, 'self': tot})
                pk.append((F.ev(fin[0].args[1], {**env0, pp(acc): tot}), cur))
            except F.Unknown as x: return r.undecided(L, ' ' + str(x)[:100])
            n += 1
            vs = lambda x: x + 8 + (0 if nn else 4 + name)
            what = f' for values of {ss[:6]}{"..." if len(ss) > 6 else ""} bytes{" without names" if nn else ""}'
            want = [x for x in ss if 12 + vs(x) <= LIM]
            sent = [x for _, c in pk for x in c]
            if sent != want: return r.ob(L + ': every value that fits is sent once, in order', False, f'{what}: {len(sent)} of {len(want)} are sent', ef[0].loc)
            for z, c in pk:
                if z != 12 + sum(map(vs, c)): return r.ob(L + ': the size field is the size of the message', False, f'{what}: a message of {12 + sum(map(vs, c))} bytes says {z}', emp[0].loc)
                if z > LIM: return r.ob(L + ': no message is longer than the buffer', False, f'{what}: {z} bytes', emp[0].loc)
    for l in ('every value that fits is sent once, in order', 'the size field is the size of the message', 'no message is longer than the buffer'): r.ob(L + ': ' + l, True)
    r.stats['packings_evaluated'] = n

class Sent(dict):
    """quantities known while a message is put together: every write succeeds"""
    cut = re.compile(r'size\(string::substr\((.*),(\d+),(\d+)\)\)')
    def __contains__(self, k):
        m = self.cut.fullmatch(k)
        return dict.__contains__(self, k) or k.startswith('ClientConnection::write(') or bool(m and f'size({m[1]})' in self)
    def __missing__(self, k):
        if k.startswith('ClientConnection::write('): return 1
        m = self.cut.fullmatch(k)
        return max(0, min(self[f'size({m[1]})'] - int(m[2]), int(m[3])))

def pack_ascii(r, f):
    one = 'each *arg1'
    L = 'text messages'
    ef = sorted([e for e in f.effects if e.kind == 'call' and (e.name.startswith(('stream::', 'out<')) or e.name in ('VariableReference::writeValueAscii', 'ClientConnection::write'))], key=lambda e: e.order)
    wr = [e for e in ef if e.name == 'ClientConnection::write']
    inl = [e for e in wr if e.loops == (one,)]
    if len(inl) != 1 or len(wr) != 2 or any(e.loops not in ((), (one,)) for e in ef): return r.undecided(L, ' form')
    acc = None
    for x in recs(inl[0].guard):
        if 'size(stream::str' in pp(x[1]) or x[1][0] == 'c': acc = x; break
    if acc is None: return r.undecided(L, ' no running size')
    n = 0
    for hd in (1, 2):
        for ss in seqs([1, 2, 100, 4000, 8180, 8185, 8186, 8187, 8188, 8189, 8190, 8191, 8192, 8200, 9000, 20000]):
            buf, sent = {}, []
            env = Sent({'count(0,1)': 0, 'size(*arg1)': 1 << 20, 'this._debug': 0, 'arg2': 5})
            var = {'s': None}
            def content(t, env):
                """text of a printed term"""
                k = t[0]
                if k == 'ite': return content(t[2] if F.evb(t[1], env) else t[3], env)
                if k == 's': return t[1]
                p_ = pp(t)
                if p_.startswith('stream::str#') and p_ in snap: return snap[p_]
                m = t[0] == 'ret' and t[1] == 'string::substr'
                if m: return content(t[2], env)[F.ev(t[3], env):F.ev(t[3], env) + F.ev(t[4], env)]
                if k == 'tmp': return content(t[1], env)
                raise F.Unknown('text of ' + p_[:60])
            snap = {}
            def root(a):
                while isinstance(a, tuple) and a[0] not in ('al',): a = a[1]
                return a
            def step(e, env):
                q = F.may(e.guard, env)
                if q == {0}: return
                if q != {1}:
                    if e.name not in ('stream::str', 'stream::new'):
                        raise F.Unknown('guard of ' + e.name)
                d = root(e.args[0]) if e.name != 'VariableReference::writeValueAscii' else root(e.args[1]) if root(e.args[1]) else None
                if e.name == 'stream::new': buf[d] = ''
                elif e.name == 'stream::set': buf[d] = content(e.args[1], env)
                elif e.name == 'stream::str':
                    k = f'stream::str#{e.args[1][1]}({pp(e.args[0])})'
                    snap[k] = buf.get(d, ''); env[f'size({k})'] = len(snap[k])
                elif e.name == 'ClientConnection::write':
                    sent.append(content(e.args[1], env))
                elif e.name == 'VariableReference::writeValueAscii': buf[last_new[0]] += var['s']
                elif e.name.startswith('out<'):
                    v = e.args[1]
                    if pp(v) == 'arg2': x = '5' * hd
                    elif v[0] == 'c' and e.name in ('out<char>',): x = chr(v[1])
                    else: x = content(v, env)
                    buf[d] = buf.get(d, '') + x
            last_new = [None]
            def run(es, env):
                for e in es:
                    if e.name == 'stream::new': last_new[0] = root(e.args[0])
                    step(e, env)
            try:
                pre = [e for e in ef if not e.loops and e.order < inl[0].order]
                post = [e for e in ef if not e.loops and e.order > inl[0].order]
                body = [e for e in ef if e.loops]
                run(pre, env)
                tot = F.ev(acc[1], env)
                texts = []
                for j, s_ in enumerate(ss):
                    var['s'] = chr(65 + j % 26) * s_
                    texts.append(var['s'])
                    env[pp(acc)] = tot
                    env['VariableReference::getName'] = 0
                    # the size of the text that is printed for this value is known before it decides
                    for e in body:
                        if e.name == 'stream::new': last_new[0] = root(e.args[0])
                        step(e, env)
                    tot = F.ev(acc[2], Sent({**env, 'self': tot}))
                env2 = Sent(env)
                for e in post:
                    # the loop was not left early
                    g = e.guard
                    pre_ = {k: 0 for k in supp(g) if k[0] == 'X'}
                    q = F.may(g, env2, pre_)
                    if q == {0}: continue
                    fake = e
                    d = root(e.args[0])
                    if e.name == 'stream::str':
                        k = f'stream::str#{e.args[1][1]}({pp(e.args[0])})'; snap[k] = buf.get(d, ''); env2[f'size({k})'] = len(snap[k])
                    elif e.name.startswith('out<'):
                        v = e.args[1]
                        buf[d] = buf.get(d, '') + (chr(v[1]) if v[0] == 'c' else content(v, env2))
                    elif e.name == 'ClientConnection::write': sent.append(content(e.args[1], env2))
                    elif e.name == 'stream::set': buf[d] = content(e.args[1], env2)
            except F.Unknown as x: return r.undecided(L, ' ' + str(x)[:120])
            n += 1
            what = f' for values of {ss[:6]}{"..." if len(ss) > 6 else ""} characters'
            allt = ''.join(sent)
            want = '5' * hd + ''.join('\t' + (x if len(x) + 2 <= LIM else x[:LIM - 2]) for x in texts) + '\n'
            if allt != want: return r.ob(L + ': the type, then every value after a tab, then a newline', False, f'{what}: {len(allt)} characters instead of {len(want)}', inl[0].loc)
            big = [len(x) for x in sent if len(x) > LIM]
            if big: return r.ob(L + ': no message is longer than the buffer', False, f'{what}: {big[:1]}', inl[0].loc)
    for l in ('the type, then every value after a tab, then a newline', 'no message is longer than the buffer'): r.ob(L + ': ' + l, True)
    r.stats['packings_evaluated'] = r.stats.get('packings_evaluated', 0) + n

def v03(r):
    u = r.unit([VS + 'VariableServerSession_write_data.cpp', VS + 'VariableServerSession_copy_sim_data.cpp', VS + 'VariableServerSession_commands.cpp'])
    p = u.extract(roots=[r'VariableServerSession::(write_|copy_|transmit_file)'], opaque=['message_publish', r'VariableServerSession::\w+_data\('])
    S = 'VariableServerSession::'
    # ---- binary
    f = r.flow(p, S + 'write_binary_data', typed=True, streams=True)
    pack_binary(r, f)
    ws = [e for e in r.sel(f, 'stream::write') if len(e.loops) == 1]
    L = 'header of a binary message: '
    for sw in (0, 1):
        f = r.flow(p, S + 'write_binary_data', typed=True, streams=True, consts={'this._byteswap': sw, 'this._debug': 0})
        ws = sorted([e for e in r.sel(f, 'stream::write') if len(e.loops) == 1], key=lambda e: e.order)
        it = 'local[*]'
        want = [('arg2', '4'), (f'i32({it})-4', '4'), (f'size({it}.second)', '4')]
        if sw: want = [(f'trick_byteswap_int({a})', n) for a, n in want]
        got = []
        for e in ws:
            # inside its loop the range is not at its end
            x = [a for a, g in alts(e.args[1], e.guard) if not a[0] == 'x']
            xs = {pp(a) for a in x}
            if sw and len(xs) == 2: xs = {q for q in xs if 'byteswap' in q} if e.args[1][0] == 'ite' else xs
            if not sw and len(xs) == 2: xs = {q for q in xs if 'byteswap' not in q}
            got.append((xs.pop() if len(xs) == 1 else pp(e.args[1]), pp(e.args[2])))
        if len(ws) == 3 and all(e.loops == ('each local',) for e in ws):
            r.ob(L + 'type, size without the type field, number of values' + (' in the other byte order' if sw else ''), got == want, f' {got}'[:300], r.at(ws))
            for e in ws: r.same(L + 'always sent', e.guard, TRUE, e.loc)
        else: r.undecided(L, ' form')
        vs = sorted([e for e in f.effects if e.kind == 'call' and re.fullmatch(r'VariableReference::write\w+Binary', e.name)], key=lambda e: e.order)
        L2 = 'fields of a value in a binary message'
        if any(len(e.loops) != 2 for e in vs): r.undecided(L2, ' loop')
        else:
            for nn in (0, 1):
                seq = [e.name[len('VariableReference::write'):-6] for e in vs if F.may(e.guard, {'this._binary_data_nonames': nn}) != {0}]
                exp = (['NameLength', 'Name'] if not nn else []) + ['Type', 'Size', 'Value']
                r.ob(L2 + (' without names' if nn else '') + (' in the other byte order' if sw else ''), seq == exp, f' {seq} instead of {exp}', r.at(vs, f))
                for e in vs:
                    q = F.may(e.guard, {'this._binary_data_nonames': nn})
                    if q == {0, 1}: r.ob(L2 + ': always', False, ' when ' + F.witness(M.NOT(e.guard)), e.loc)
            for e in vs:
                r.ob(L2 + ': in the byte order of the client', pp(e.args[2]) in (str(sw), 'this._byteswap'), pp(e.args[2]), e.loc)
                r.ob(L2 + ': of the same value', pp(e.args[0]) == 'local[*]', pp(e.args[0])[:80], e.loc)
            for d in {x for e in vs for x in e.loops}: r.every(L2 + ': all values', f, re.escape(d))
        cw = r.sel(f, 'ClientConnection::write')
        if len(cw) == 1 and len(cw[0].loops) == 1:
            r.ob('every binary message is sent in its full length', pp(cw[0].args[-1]) in ('i32(local[*])', 'local[*]', 'local[*].first') and cw[0].order > max([e.order for e in vs] or [0]), pp(cw[0].args[-1]), cw[0].loc)
            r.same('every binary message is sent', cw[0].guard, TRUE, cw[0].loc)
        else: r.undecided('every binary message is sent', ' form')
    # ---- text
    f = r.flow(p, S + 'write_ascii_data', typed=True, streams=True)
    pack_ascii(r, f)
    va = r.sel(f, 'VariableReference::writeValueAscii')
    for e in va: r.ob('the text of every value is its own', pp(e.args[0]) == 'arg1[*]', pp(e.args[0]), e.loc)
    # ---- a message of complete samples
    f = r.flow(p, S + 'write_data', params=2)
    L = 'a message holds one complete sample'
    lk = r.sel(f, r'pthread_mutex_(try)?lock')
    pr = r.sel(f, r'VariableReference::prepareForWrite')
    st = r.sel(f, r'VariableReference::isStaged')
    wd = r.sel(f, S + r'write_(ascii|binary)_data')
    r.ob(L + ': values are taken over', bool(pr) and bool(wd), '', f.label)
    if pr and wd:
        some = ~(t('size(*arg1)') == 0) & ~(t('size(*arg1)') < 0)
        for e in pr:
            r.ob(L + ': every value is taken over', e.loops == ('each *arg1',) and pp(e.args[0]) == 'arg1[*]', str(e.loops), e.loc)
            r.every(L + ': every value is taken over', f, re.escape(e.loops[0]), e.lids[0])
        g = M.NOT(0)
        ex = [k for k in supp(r.tot(wd)) if k[0] == 'X']
        okx = any('isStaged(arg1[*])' in F.patom(k) for k in ex)
        r.ob(L + ': it is only sent when all its values have been copied', okx, '', r.at(wd))
        for k in ex:
            if 'isStaged(arg1[*])' in F.patom(k): r.imp(L + ': it is only sent when all its values have been copied', r.tot(wd), G(M.NOT(M.var(k))), r.at(wd))
        r.ob(L + ': values are taken over before they are written', max(e.order for e in pr) < min(e.order for e in wd), '', r.at(wd))
        for e in wd:
            r.ob(L + ': of the values given', [pp(x) for x in e.args] == ['this', 'arg1', 'arg2'], str([pp(x) for x in e.args]), e.loc)
        tot = r.tot(wd)
        for k, nm in (('binary', 1), ('ascii', 0)):
            es = [e for e in wd if k in e.name]
            r.imp(L + f': {k} clients get {k} messages', r.tot(es), b('this._binary_data') if nm else ~b('this._binary_data'), r.at(es, f))
        # holding the copy mutex while values are looked at and taken over
        un = r.sel(f, 'pthread_mutex_unlock')
        r.ob(L + ': the values do not change while they are taken over', bool(lk) and all('_copy_mutex' in pp(e.args[0]) for e in lk + un) and max(e.order for e in lk) < min(e.order for e in pr + st) and any(e.order > max(x.order for x in pr) for e in un) , '', r.at(lk, f))
        rets = {}
        for a, g in alts(f.retval(), TRUE):
            if pp(a).startswith(S + 'write_'): rets[pp(a)] = g
        r.ob(L + ': the result of writing is returned', len(rets) == 2, str(list(rets))[:200], f.label)
    f = r.flow(p, S + 'write_data', params=0)
    e = r.sel(f, S + 'write_data')
    r.ob('cyclic messages hold all variables of the client', len(e) == 1 and [pp(x) for x in e[0].args] == ['this', '&this._session_variables', '0'], str([[pp(x) for x in y.args] for y in e]), r.at(e, f))
    from rules.vsim import samples
    samples(r, p)
    # ---- copying
    f = r.flow(p, S + 'copy_sim_data', params=2)
    L = 'all values of a sample are copied together'
    sv = r.sel(f, 'VariableReference::stageValue')
    lk = r.sel(f, r'pthread_mutex_(try)?lock'); un = r.sel(f, 'pthread_mutex_unlock')
    r.ob(L, bool(sv) and all(e.loops == ('each *arg1',) and pp(e.args[0]) == 'arg1[*]' for e in sv), '', r.at(sv, f))
    for d in {x for e in sv for x in e.loops}: r.every(L + ': every variable', f, re.escape(d))
    if sv and lk:
        r.ob(L + ': while no message takes them over', max(e.order for e in lk) < min(e.order for e in sv) and all(x.order > max(e.order for e in sv) for x in un) and bool(un), '', r.at(lk))
        tm = r.stores(f, r'this\._time')
        ok = [pp(e.val) for e in tm] in (['fdiv(tofp(exec_get_time_tics()),tofp(exec_get_time_tic_value()))'],)
        if ok: r.ob(L + ': with the time they have', all(e.order < min(x.order for x in sv) for e in tm), '', r.at(tm)); r.same(L + ': with the time they have', r.tot(tm), r.tot([e for e in f.effects if e.kind == 'loop']), r.at(tm))
        elif not tm: r.ob(L + ': with the time they have', False, '', f.label)
        elif any('div(' in pp(e.val) and 'fdiv' not in pp(e.val) for e in tm): r.ob(L + ': with the time they have', False, pp(tm[0].val), r.at(tm))
        else: r.undecided(L + ': time', ' ' + pp(tm[0].val)[:80])
    f = r.flow(p, S + 'copy_sim_data', params=0)
    e = r.sel(f, S + 'copy_sim_data')
    r.ob('cyclic copies take all variables of the client', len(e) == 1 and pp(e[0].args[1]) == '&this._session_variables', str([[pp(x) for x in y.args] for y in e]), r.at(e, f))
    # ---- files
    f = r.flow(p, S + 'transmit_file')
    op, cl = r.sel(f, 'fopen'), r.sel(f, 'fclose')
    L = 'files sent to a client'
    if len(op) == 1 and pp(op[0].args[1]) in ('"r"', '"rb"'):
        r.same(L + ': are closed', r.tot(cl), b('fopen(' + ','.join(pp(a) for a in op[0].args) + ')'), r.at(cl or op))
        for e in r.sel(f, 'ClientConnection::write'):
            if e.loops and e.args[1][0] == 'ret' and e.args[1][1] == 'string::assign': r.ob(L + ': are sent byte by byte', 'fread(' == pp(e.args[1][-1])[:6] and len(e.args[1]) == 5, f' {pp(e.args[1])[-60:]}', e.loc)
    else: r.undecided(L, ' form')
    return r.finish('Message framing of the variable server: header fields, order and completeness of the fields of a value, packing of values into messages (the recurrences of the running sizes evaluated at all packet boundaries), text layout, complete samples under the copy mutex.',
                    ['the stream and container classes of the C++ library do what they are for', 'the name of a variable does not change while a message is put together', 'values sent with a size that the next copy has changed meanwhile are not covered'], 40)

# ------------------------------------------------------------------ when a client gets its values
MAXT = 9223372036854775807
def runs(es, env):
    """how often calls happen under env: (at least, at most)"""
    lo = hi = 0
    for e in es:
        q = F.may(e.guard, env)
        if q == {0, 1}: q = {int(F.evb(e.guard, env))}      # or names what is not known
        lo += q == {1}; hi += 1 in q
    return lo, hi

def fin(f, path, env):
    """value of a member when the function returns"""
    return F.ev(f.final(path), env)

def v04(r):
    S = 'VariableServerSession::'
    u = r.unit([VS + 'VariableServerSession_copy_and_write_modes.cpp', VS + 'VariableServerSession.cpp', VS + 'VariableServerSession_freeze_init.cpp', VS + 'VariableServerSession_commands.cpp',
                VS + 'VariableServer_copy_and_write_*.cpp', VS + 'VariableServer_get_next_*.cpp', VS + 'VariableServer_freeze_init.cpp'])
    p = u.extract(roots=[r'VariableServerSession::(copy_and_write_|freeze_init|var_|get_exit_cmd|set_pause|send_list)', r'VariableServer::(copy_and_write_|get_next_|freeze_init)'],
                  opaque=['message_publish', 'copy_sim_data', 'write_data', 'split', r'VariableReference::.*'], devirt=[r'VariableServerSession$'])
    n = 0
    K = {'en': 'this._enabled', 'cm': 'this._copy_mode', 'wm': 'this._write_mode', 'pa': 'this._pause_cmd', 'rt': 'is_real_time()', 'wr': S + 'write_data(this)'}
    base = {'this._cycle_tics': 7, 'this._next_tics': 100, 'this._freeze_next_tics': 100, 'this._frame_multiple': 4, 'this._frame_offset': 3, 'this._freeze_frame_multiple': 5, 'this._freeze_frame_offset': 2, 'this._exit_cmd': 0}
    kinds = [('copy_and_write_scheduled', 1, '_next_tics'), ('copy_and_write_freeze_scheduled', 1, '_freeze_next_tics'), ('copy_and_write_top', 2, '_frame'), ('copy_and_write_freeze', 2, '_freeze_frame'), ('copy_and_write_async', 0, None)]
    for fn, mode, what in kinds:
        f = r.flow(p, S + fn)
        cp, wr = r.sel(f, S + 'copy_sim_data'), r.sel(f, S + 'write_data')
        bad = None
        try:
            for en in (0, 1):
              for cm in (0, 1, 2):
                for wm in (0, 1):
                  for pa in (0, 1):
                    for rt in (0, 1):
                      for ret in (-1, 0, 5):
                        for a in ((99, 100, 101) if what and 'tics' in what else (0, 2, 3, 6, 7, 8, 11, 12, 17) if what else (0,)):
                            env = {**base, K['en']: en, K['cm']: cm, K['wm']: wm, K['pa']: pa, K['rt']: rt, K['wr']: ret, 'arg1': a}
                            due = 1 if not what else a >= 100 if 'tics' in what else a % 4 == 3 if what == '_frame' else a % 5 == 2
                            c = en and cm == mode and due
                            if mode: w = c and not pa and wm == 1 and rt
                            else: w = en and not pa and (wm == 0 or cm == 0 or not rt)
                            n += 1
                            st = f'{"enabled" if en else "disabled"}, copy mode {cm}, write mode {wm}, {"paused" if pa else "running"}, {"real" if rt else "no real"} time' + ('' if not what else f', at {a} with {what} 100' if 'tics' in what else f', in frame {a} with multiple {4 if what == "_frame" else 5} and offset {3 if what == "_frame" else 2}')
                            if runs(cp, env) != ((1, 1) if c else (0, 0)): bad = bad or (f': values are {"not " if c else ""}copied', st, r.at(cp, f))
                            if runs(wr, env) != ((1, 1) if w else (0, 0)): bad = bad or (f': values are {"not " if w else ""}sent', st, r.at(wr, f))
                            if fin(f, 'this._exit_cmd', env) != (1 if w and ret < 0 else 0): bad = bad or (': a client that cannot be written to leaves', st + f', result of writing {ret}', f.label)
                            if w and F.ev(f.retval(), env) != ret: bad = bad or (': the result of writing', st + f', {ret}', f.label)
                            if what and 'tics' in what:
                                x = fin(f, 'this.' + what, env)
                                if x != (a + 7 if c else 100): bad = bad or (': time of the next copy', st + f', cycle 7: {x}', f.label)
        except F.Unknown as x: r.undecided(fn, ' ' + str(x)[:100]); continue
        lab = {0: 'asynchronous', 1: 'scheduled', 2: 'top of frame'}[mode] + (' (freeze)' if 'freeze' in fn else '')
        r.ob(f'{lab} copies and messages: exactly when they are due' + (bad[0] if bad else ''), not bad, f' {bad[1]}' if bad else '', bad[2] if bad else f.label)
        for e in wr:
            if mode: r.ob(f'{lab}: a message holds the values just copied', all(c.order < e.order for c in cp), '', e.loc)
    # ---- all sessions, and the time of the next call
    for fn, job, nt in (('copy_and_write_scheduled', 'copy_data_job', '_next_tics'), ('copy_and_write_freeze_scheduled', 'copy_and_write_freeze_job', '_freeze_next_tics'), ('get_next_sync_call_time', 'copy_data_job', '_next_tics'),
                        ('get_next_freeze_call_time', 'copy_and_write_freeze_job', '_freeze_next_tics'), ('freeze_init', 'copy_and_write_freeze_job', '_freeze_next_tics'), ('copy_and_write_top', None, None), ('copy_and_write_freeze', None, None)):
        f = r.flow(p, 'VariableServer::' + fn)
        L = f'VariableServer::{fn}'
        lp = [e for e in f.effects if e.kind == 'loop']
        if len(lp) != 1 or lp[0].name != 'each this.var_server_sessions': r.undecided(L, ' loop'); continue
        r.every(L + ' looks at every client', f, re.escape(lp[0].name))
        lk, un = r.sel(f, 'pthread_mutex_lock'), r.sel(f, 'pthread_mutex_unlock')
        body = [e for e in f.effects if e.loops]
        r.ob(L + ': clients neither come nor go meanwhile', all(pp(e.args[0]) == '&this.map_mutex' for e in lk + un) and bool(lk) and bool(un) and max(e.order for e in lk) < min([e.order for e in body + lp]) and min(e.order for e in un) > max([e.order for e in body + lp]), '', r.at(lk + un, f))
        s = 'this.var_server_sessions[*].second.'
        sess = lambda cm, en, nx, fnx: {s + '_copy_mode': cm, s + '_enabled': en, s + '_next_tics': nx, s + '_freeze_next_tics': fnx, s + '_cycle_tics': 7, s + '_write_mode': 0, s + '_pause_cmd': 0, s + '_frame_multiple': 4, s + '_frame_offset': 3, s + '_freeze_frame_multiple': 5, s + '_freeze_frame_offset': 2,
                                           'is_real_time()': 0, 'exec_get_frame_count()': 7, 'exec_get_freeze_frame_count()': 7, 'end(this.var_server_sessions)': 1, 'iter(this.var_server_sessions)': 0, 'this.copy_data_job': 1, 'this.copy_and_write_freeze_job': 1}
        if not job:
            cp = r.sel(f, S + 'copy_sim_data')
            try:
                for k in (6, 7, 8, 12):
                    e = {**sess(2, 1, 0, 0), 'exec_get_frame_count()': k if 'freeze' not in fn else 0, 'exec_get_freeze_frame_count()': k if 'freeze' in fn else 0}
                    q = runs(cp, e)
                    r.ob(L + ': counts the frames that have passed', q == ((1, 1) if (k % 5 == 2 if 'freeze' in fn else k % 4 == 3) else (0, 0)), f' frame {k}: {q}', r.at(cp, f))
            except F.Unknown as x: r.undecided(L, ' ' + str(x)[:100])
            continue
        t_ = f.final(f'this.{job}.next_tics')
        acc = next((x for x in terms(t_, 'rec')), None)
        st = r.stores(f, re.escape(f'this.{job}.next_tics'))
        r.ob(L + ': the time of the next call is set', bool(st), '', f.label)
        if acc is None: r.undecided(L, ' form'); continue
        pool = [(1, 1, 103, 103), (1, 1, 100, 100), (1, 0, 100, 100), (0, 1, MAXT, MAXT), (2, 1, MAXT, MAXT), (1, 1, 250, 250), (1, 1, 90, 90)]
        want_after = {'copy_and_write_scheduled': lambda c: (100 + 7 if c[2] <= 100 else c[2]) if c[1] and c[0] == 1 else c[2] if c[1] else MAXT,
                      'get_next_sync_call_time': lambda c: c[2] if c[1] else MAXT,
                      'freeze_init': lambda c: 7 if c[1] and c[0] == 1 else MAXT}
        want_after['copy_and_write_freeze_scheduled'] = want_after['copy_and_write_scheduled']; want_after['get_next_freeze_call_time'] = want_after['get_next_sync_call_time']
        bad = None
        try:
            for a in pool:
                for c in pool:
                    for d in pool[:4]:
                        tot = F.ev(acc[1], sess(*a))
                        for k in (a, c, d):
                            env = {**sess(*k), f'this.{job}.next_tics': 100}
                            tot = F.ev(acc[2], {**env, 'self': tot})
                        got = F.ev(t_, {**sess(*d), pp(acc): tot})
                        w = min(want_after[fn](k) for k in (a, c, d))
                        n += 1
                        if got != w and not bad: bad = f' {got} instead of {w} for clients with (copy mode, enabled, next) {(a[:3], c[:3], d[:3])} at 100 with cycle 7'
        except F.Unknown as x: r.undecided(L, ' ' + str(x)[:100]); continue
        r.ob(L + ': the next call is when the first client is due', not bad, bad or '', r.at(st, f))
        for e in st: r.imp(L + ': the time of the next call is set', b(f'this.{job}'), e.guard, e.loc) if 'freeze_init' in fn else None
    # ---- commands
    T1, T2 = 'exec_get_time_tics()', 'exec_get_freeze_time_tics()'
    f = r.flow(p, S + 'freeze_init')
    try:
        for en in (0, 1):
            for cm in (0, 1, 2):
                x = fin(f, 'this._freeze_next_tics', {**base, 'this._enabled': en, 'this._copy_mode': cm})
                r.ob('the first copy of a freeze is one cycle after its start', x == (7 if en and cm == 1 else MAXT), f' enabled {en}, copy mode {cm}, cycle 7: {x}', f.label)
    except F.Unknown as x: r.undecided('freeze_init', ' ' + str(x)[:100])
    f = r.flow(p, S + 'var_set_copy_mode')
    try:
        for m in (-1, 0, 1, 2, 3):
            for now, fz in ((0, 0), (13, 5), (14, 7), (20, 6), (21, 700)):
                env = {**base, 'this._copy_mode': 9, 'arg1': m, T1: now, T2: fz}
                ok = 0 <= m <= 2
                exp = (m if ok else 9, (now // 7 + 1) * 7 if m == 1 else MAXT if ok else 100, (fz // 7 + 1) * 7 if m == 1 else MAXT if ok else 100)
                got = tuple(fin(f, 'this.' + k, env) for k in ('_copy_mode', '_next_tics', '_freeze_next_tics'))
                n += 1
                r.ob('var_set_copy_mode: mode and times of the next copies', got == exp, f' mode {m} at {now} (freeze {fz}) with cycle 7 and next copies at 100: {got} instead of {exp}', f.label)
                r.ob('var_set_copy_mode: refuses unknown modes', (F.ev(f.retval(), env) == 0) == ok, f' mode {m}', f.label)
    except F.Unknown as x: r.undecided('var_set_copy_mode', ' ' + str(x)[:100])
    f = r.flow(p, S + 'var_set_write_mode')
    try:
        for m in (-1, 0, 1, 2):
            env = {**base, 'this._write_mode': 9, 'arg1': m}
            r.ob('var_set_write_mode', fin(f, 'this._write_mode', env) == (m if m in (0, 1) else 9) and (F.ev(f.retval(), env) == 0) == (m in (0, 1)), f' mode {m}', f.label)
    except F.Unknown as x: r.undecided('var_set_write_mode', ' ' + str(x)[:100])
    f = r.flow(p, S + 'var_sync')
    try:
        for m in (-1, 0, 1, 2, 3):
            env = {**base, 'this._copy_mode': 9, 'this._write_mode': 9, 'arg1': m, T1: 13, T2: 5}
            got = tuple(fin(f, 'this.' + k, env) for k in ('_copy_mode', '_write_mode', '_next_tics', '_freeze_next_tics'))
            exp = (1, m - 1, 14, 7) if m in (1, 2) else (0, 0, MAXT, MAXT)
            r.ob('var_sync', got == exp, f' mode {m}: {got} instead of {exp}', f.label)
    except F.Unknown as x: r.undecided('var_sync', ' ' + str(x)[:100])
    f = r.flow(p, S + 'var_cycle')
    try:
        for rate, tic in ((0.1, 1000000), (0.5, 10), (0.0, 1000000), (1e-9, 1000), (2.0, 1), (-1.0, 1000)):
            got = fin(f, 'this._cycle_tics', {'arg1': rate, 'exec_get_time_tic_value()': tic})
            n += 1
            r.ob('var_cycle: the cycle of a client is at least one tic', got == max(1, int(rate * tic)), f' {rate} s at {tic} tics/s: {got}', f.label)
    except F.Unknown as x: r.undecided('var_cycle', ' ' + str(x)[:100])
    try:
        for fn, k in (('var_set_frame_multiple', '_frame_multiple'), ('var_set_freeze_frame_multiple', '_freeze_frame_multiple'), ('var_set_frame_offset', '_frame_offset'), ('var_set_freeze_frame_offset', '_freeze_frame_offset')):
            f = r.flow(p, S + fn)
            for v in (0, 1, 2, 50):
                got = fin(f, 'this.' + k, {**base, 'arg1': v})
                r.ob(fn, got == (max(v, 1) if 'multiple' in k else v), f' {v}: {got}', f.label)
    except F.Unknown as x: r.undecided('frame multiples', ' ' + str(x)[:100])
    try:
        for fn, exp in (('var_ascii', {'_binary_data': 0}), ('var_binary', {'_binary_data': 1}), ('var_binary_nonames', {'_binary_data': 1, '_binary_data_nonames': 1}), ('var_exit', {'_exit_cmd': 1})):
            f = r.flow(p, S + fn)
            for k, v in exp.items(): r.ob(fn, fin(f, 'this.' + k, {'this.' + k: 1 - v}) == v, k, f.label)
        for fn, k in (('var_byteswap', '_byteswap'), ('set_pause', '_pause_cmd')):
            f = r.flow(p, S + fn)
            for v in (0, 1): r.ob(fn, fin(f, 'this.' + k, {'this.' + k: 1 - v, 'arg1': v}) == v, k, f.label)
    except F.Unknown as x: r.undecided('flags of a client', ' ' + str(x)[:100])
    # ---- the list of variables
    f = r.flow(p, S + 'var_add', params=2)
    e = r.sel(f, 'push_back')
    L = 'var_add'
    r.ob(L + ': adds at the end', len(e) == 1 and pp(e[0].args[0]) == '&this._session_variables', '', r.at(e, f))
    for x in e: r.same(L + ': always adds', x.guard, TRUE, x.loc)
    cs = [e for e in r.sel(f, 'VariableReference::VariableReference')]
    for e in cs:
        tm = F.may(e.guard, {'compare("time",*arg1)': 0}); ot = F.may(e.guard, {'compare("time",*arg1)': 1})
        r.ob(L + ': time is the time of the copied values, other names are looked up', pp(e.args[1]) == '*arg1' and ((tm == {1} and ot == {0} and len(e.args) == 3 and pp(e.args[2]) == '&this._time') or (tm == {0} and ot == {1} and len(e.args) == 2)), f' {[pp(a) for a in e.args]}', e.loc)
    f = r.flow(p, S + 'var_send_once', params=3) if False else r.flow(p, S + 'var_send_once')
    cs = [e for e in r.sel(f, 'VariableReference::VariableReference')]
    L = 'var_send_once'
    if cs and all(e.loops == ('each local',) for e in cs):
        r.every(L + ': all names', f, 'each local')
        for e in cs:
            tm = F.may(e.guard, {'compare("time",local[*])': 0}); ot = F.may(e.guard, {'compare("time",local[*])': 1})
            r.ob(L + ': time is the time of the copied values, other names are looked up', pp(e.args[1]) == 'local[*]' and ((0 in ot and ot == {0} and len(e.args) == 3 and pp(e.args[2]) == '&this._time') or (tm == {0} and len(e.args) == 2)), f' {[pp(a) for a in e.args]}', e.loc)
        pb, c, w = r.sel(f, 'push_back'), r.sel(f, S + 'copy_sim_data'), r.sel(f, S + 'write_data')
        sp = t('size(split(arg1,44))') == t('arg2')
        r.ob(L + ': copies the values named, once, then sends them', len(c) == 1 and len(w) == 1 and pb and pb[-1].order < c[0].order < w[0].order, '', r.at(c + w, f))
        for x in c: r.ob(L + ': waits for its turn to copy', pp(x.args[-1]) == '0', '', x.loc)
        for x in w: r.ob(L + ': says what it is', pp(x.args[-1]) == str(p.enums.get('VS_MESSAGE_TYPE', {}).get('VS_SEND_ONCE', 5)), pp(x.args[-1]), x.loc)
        for x in c + w: r.same(L + ': when the number of names is right', x.guard, sp, x.loc)
    else: r.undecided(L, ' form')
    f = r.flow(p, S + 'var_remove')
    L = 'var_remove'
    er, de = r.sel(f, 'erase'), r.sel(f, 'VariableReference::~VariableReference')
    it = 'this._session_variables[*]'
    if len(er) == 1 and er[0].loops == ('each this._session_variables',):
        k = [x for x in supp(er[0].guard) if 'getName' in F.patom(x)]
        r.ob(L + ': removes the variable of that name', bool(k) and all('getName(' + it in F.patom(x) and '*arg1' in F.patom(x) for x in k) and pp(er[0].args[1]) == 'advance(begin(this._session_variables),count(0,1))', F.pbdd(er[0].guard)[:200], er[0].loc)
        c = f'compare(*arg1,VariableReference::getName({it}))'
        for v in (-1, 0, 1):
            q = F.may(er[0].guard, {c: v})
            if q == {0, 1}: r.undecided(L, ' guard'); break
            r.ob(L + ': removes the variable of that name', q == ({1} if v == 0 else {0}), f' comparison gives {v}', er[0].loc)
        for e in de: r.ob(L + ': deletes what it removes', pp(e.args[0]) == it and F.may(e.guard, {c: 1}) == {0}, pp(e.args[0]), e.loc)
    else: r.undecided(L, ' form')
    # ---- one answer for every question
    for fn in ('var_exists', 'var_get_stl_size', 'send_list_size'):
        f = r.flow(p, S + fn)
        w = r.sel(f, 'ClientConnection::write')
        r.ob(fn + ': has one answer', bool(w) and all(not e.loops for e in w), '', f.label)
        tot = 0
        for i, e in enumerate(w):
            for x in w[i + 1:]: r.ob(fn + ': has one answer', M.AND(F.norm(e.guard), F.norm(x.guard)) == 0, '', x.loc)
        if w: r.same(fn + ': is always answered', r.tot(w), TRUE, r.at(w))
    r.stats['situations_evaluated'] = n
    return r.finish('Truth tables of the copy and write modes (five modes, every combination of enabled, copy mode, write mode, paused, real time, due), the minimum over all clients that sets the next call, phases of var_set_copy_mode, lower bounds of cycle and multiples, list commands, answers.',
                    ['no class overrides the getters of VariableServerSession', 'is_real_time and exec_get_* do what their names say', 'a client thread that sets a time in the past while the simulation moves on is not covered'], 60)

RULES = {'V02': v02, 'V03': v03, 'V04': v04}
