"""values of every type: checkpoint text and back, recorded values, published values"""
import os, re
from vk import *
import flow as F
from flow import pp, _addr, M
DRD = 'trick_source/sim_services/DataRecord/'
CA = 'trick_source/sim_services/CheckPointAgent/'
MMD = 'trick_source/sim_services/MemoryManager/'
# TRICK_TYPE: (IR type, bytes, signed)
INTS = {2: ('i8', 1, 0), 4: ('i16', 2, 1), 5: ('i16', 2, 0), 6: ('i32', 4, 1), 7: ('i32', 4, 0), 8: ('i64', 8, 1), 9: ('i64', 8, 0), 14: ('i64', 8, 1), 15: ('i64', 8, 0)}
NAME = {1: 'char', 2: 'unsigned char', 3: 'string', 4: 'short', 5: 'unsigned short', 6: 'int', 7: 'unsigned int', 8: 'long', 9: 'unsigned long', 10: 'float', 11: 'double', 12: 'bit field',
        13: 'unsigned bit field', 14: 'long long', 15: 'unsigned long long', 16: 'FILE pointer', 17: 'bool', 18: 'wchar_t', 19: 'wstring', 21: 'enum', 24: 'STL container'}
OUTW = {'short': (2, 1), 'unsigned short': (2, 0), 'int': (4, 1), 'unsigned int': (4, 0), 'long': (8, 1), 'unsigned long': (8, 0), 'long long': (8, 1), 'unsigned long long': (8, 0)}

def outs(f, stream=None):
    """stream outputs as (overload, argument, effect)"""
    r = []
    for e in f.effects:
        if e.kind != 'call' or not e.name.startswith('out<'): continue
        if stream and not re.fullmatch(stream, pp(e.args[0])): continue
        r.append((e.name[4:-1], e.args[1], e))
    return r

def manip(a):
    m = re.fullmatch(r'(?:fn:)?std::(dec|hex|oct|endl|setprecision|setw|setfill|flush|ends|fixed|scientific)(?:\((\d+)\))?', pp(a))
    return (m[1], int(m[2]) if m[2] else None) if m else None

def lit(a): return a[1] if a[0] == 's' else None

def sat(g, T, extra=1): return F.norm(M.AND(M.AND(gx(g), gx(T)), gx(extra))) != 0

def alts(t, g):
    out = []
    def rec(t, g):
        if F.norm(g) == 0: return
        if t[0] == 'ite': rec(t[2], M.AND(g, t[1])); rec(t[3], M.AND(g, M.NOT(t[1])))
        elif t[0] == 'bool': rec(('c', 1), M.AND(g, t[1])); rec(('c', 0), M.AND(g, M.NOT(t[1])))
        else: out.append((t, g))
    rec(t, gx(g))
    return out

def int_forms(load, ir, w, sg):
    """overload -> texts of the value that print the integer at `load` exactly"""
    x = f'{ir}({load})'
    out = {}
    for o, (ow, osg) in OUTW.items():
        if ow == w and osg == sg: out.setdefault(o, []).append(x)
        if ow > w:
            if sg and osg: out.setdefault(o, []).append(f'sext({x})')
            if not sg: out.setdefault(o, []).append(f'zext({x})')
    return out

def lexer(r):
    """character and string forms of the checkpoint grammar's scanner"""
    p = os.path.join(REPO, CA, 'input_parser.l')
    s = open(p, errors='replace').read()
    m = re.search(r'<QSTR>"\\\\"\s*\{(.*?)\n\}', s, re.S)
    esc = {}
    if m:
        body = re.sub(r'/\*.*?\*/', '', m[1], flags=re.S)
        for c, v in re.findall(r"case\s*'(\\?.)'\s*:\s*I->buf\s*(?:\+=|\.append\(|\.push_back\()\s*[\"'](\\?.)[\"']", body): esc[unq(c)] = unq(v)
    whole = '*' in (re.findall(r'<QSTR>\[\^([^\]]*)\](\*|\+)', s) or [('', '')])[0][1] or '+' in (re.findall(r'<QSTR>\[\^([^\]]*)\](\*|\+)', s) or [('', '')])[0][1]
    stop = {unq(c) for c in re.findall(r'\\.|.', (re.findall(r'<QSTR>\[\^([^\]]*)\]', s) or [''])[0])}
    r.ob('the checkpoint scanner has rules for quoted strings', bool(m) and whole, '', CA + 'input_parser.l')
    r.ob('only quotes and backslashes are special in a quoted string', stop == {'"', '\\'}, str(stop), CA + 'input_parser.l')
    ch = {}
    ch['any'] = bool(re.search(r"^\"'\"\.\"'\"\s*\{[^}]*cval\s*=\s*yytext\[1\]", s, re.S | re.M))
    ch['hex'] = bool(re.search(r'^CHAR_HEX\s+"\'\\\\x"\[a-fA-F0-9\]\+"\'"', s, re.M)) and bool(re.search(r'^\{CHAR_HEX\}\s*\{.*?&\(?yytext\[3\]\)?\s*,\s*"%x".*?cval\s*=\s*\(char\)\s*i', s, re.S | re.M))
    return esc, ch

def unq(c): return {'n': '\n', 't': '\t', 'b': '\b', 'v': '\v', 'f': '\f', 'r': '\r', '0': '\0'}.get(c[1], c[1]) if len(c) == 2 else c

def printable(c): return 32 <= c < 127
def cenv(load, c):
    """what is known about the byte at `load` being c"""
    s = c - 256 if c > 127 else c
    x = f'i8({load})'
    e = {x: s, f'sext({x})': s, f'zext({x})': c, load: s}
    for a in (f'sext({x})', f'zext({x})'):
        for fn, ok in (('isprint', printable(c)), ('isgraph', 33 <= c < 127), ('iscntrl', c < 32 or c == 127), ('isalnum', chr(c).isalnum() and c < 128), ('isspace', c in (9, 10, 11, 12, 13, 32))): e[f'{fn}({a})'] = int(ok)
    return e

def text_of(os_, env, load, pre=None):
    """what a sequence of outputs prints for a byte, or None"""
    s, base = '', 10
    for o, a, e in os_:
        m = F.may(e.guard, env, pre)
        if m == {0}: continue
        if m != {1}: return None
        mp = manip(a)
        if mp:
            if mp[0] in ('dec', 'hex'): base = 16 if mp[0] == 'hex' else 10
            continue
        if lit(a) is not None: s += lit(a); continue
        try: v = F.ev(a, env)
        except F.Unknown: return None
        if o in ('char', 'signed char', 'unsigned char'): s += chr(v & 255)
        elif o in OUTW:
            if base == 16: v &= 256 ** OUTW[o][0] - 1
            s += '%x' % v if base == 16 else '%d' % v
        else: return None
    return s

def read_char(s, ch):
    if len(s) == 3 and s[0] == s[2] == "'" and s[1] != '\n' and ch['any']: return ord(s[1])
    m = re.fullmatch(r"'\\x([0-9a-fA-F]+)'", s)
    if m and ch['hex']: return int(m[1], 16) & 255
    m = {"'\\n'": 10, "'\\t'": 9, "'\\\\'": 92}.get(s)
    if m: return m
    m = re.fullmatch(r"'\\([0-7]+)'", s)
    if m: return int(m[1], 8) & 255
    m = re.fullmatch(r'-?\d+', s)
    if m: return int(s) & 255
    return None

def read_str(s, esc):
    out, k = '', 0
    while k < len(s):
        if s[k] == '"': return None
        if s[k] == '\\':
            k += 1
            if k >= len(s) or s[k] not in esc: return None
            out += esc[s[k]]
        else: out += s[k]
        k += 1
    return out

def string_bytes(r, label, loops, esc, pre=None):
    """every byte of a quoted string is written so that the scanner reads it back; `loops`: outputs inside the loop over the bytes"""
    lds = set()
    for o, a, e in loops:
        for m in re.finditer(r'i8\(((?:[^()]|\((?:[^()]|\([^()]*\))*\))*)\)', pp(a)): lds.add(m[1])
    at = r.at([e for _, _, e in loops])
    if len(lds) != 1: return r.undecided(label, f' bytes {sorted(lds)[:3]}')
    ld = lds.pop()
    for c in range(1, 256):
        s = text_of(loops, cenv(ld, c), ld, pre)
        if s is None: return r.undecided(label, f' output for byte {c}')
        b_ = read_str(s, esc)
        if b_ != chr(c): return r.ob(label, False, f' byte {c} is written as {s!r}, which reads back as {b_!r}', at)
    r.stats['bytes_evaluated'] = r.stats.get('bytes_evaluated', 0) + 255
    return r.ob(label, True)

def opnd(ir, x): return f'{ir}({x})'

def c03(r):
    u = r.unit([CA + 'ClassicCheckPointAgent.cpp'])
    p = u.extract(roots=['ClassicCheckPointAgent::(write_singleton|is_nil_valued|write_rvalue|assign_rvalue)\\('], opaque=['basic_string', 'operator<<', 'message_publish', 'ref_string_from_ptr', 'getCompositeSubReference', 'perm_check', 'left_side_name'] + opq('ClassicCheckPointAgent'))
    esc, ch = lexer(r)
    written_values(r, p, esc, ch)
    nil_values(r, p)
    written_arrays(r, p, esc)
    restore_values(r)
    clear_values(r)
    parsed_values(r)
    return r.finish('For every type: the text written for a value (place, width, sign, base, digits, quoting), the reading of every byte of characters and strings by the scanner, the omission of nil values, the walk over dimensions, and the clearing and the store done on restore. Each function is analysed once per type and size.', ['decimal text with 16 (8) significant digits is accepted as the value', 'flex and bison follow their grammars'], floor=250)

def decimal(r, label, f, O, es):
    if not any(manip(a) and manip(a)[0] == 'hex' and not e.loops for o, a, e in O): return
    for e in es:
        dec = M.OR(*[x.guard for o, a, x in O if manip(a) and manip(a)[0] == 'dec' and x.order < e.order and not x.loops])
        r.imp(label + ' is written in decimal', e.guard, dec, e.loc)

def written_values(r, p, esc, ch):
    def at_type(k, **kw): 
        f = r.flow(p, 'ClassicCheckPointAgent::write_singleton', typed=True, streams=True, consts={'arg3.type': k, **{'arg3.' + n: v for n, v in kw.items()}})
        O = [x for x in outs(f, 'arg1') if F.norm(x[2].guard) != 0]
        return f, O, [x for x in O if not manip(x[1])]
    for k, (ir, w, sg) in INTS.items():
        f, O, vs = at_type(k)
        ld = 'arg2[arg4]' if w == 1 else f'arg2[{w}*arg4]'
        forms = int_forms(ld, ir, w, sg)
        good = [x for x in vs if pp(x[1]) in forms.get(x[0], [])]
        es = [e for _, _, e in good]
        r.same(f'{NAME[k]}: the value is written', r.tot(es), 1, r.at(es, f))
        for o, a, e in vs:
            if (o, a, e) not in good: r.ob(f'{NAME[k]}: nothing but the value at its place, with its width and sign, is written', False, f' writes {pp(a)[:120]} as {o}', e.loc)
        decimal(r, NAME[k], f, O, es)
    f, O, vs = at_type(17)
    for v, txt in ((0, ('false', '0')), (1, ('true', '1'))):
        s = text_of(vs, {'i8(arg2[arg4])': v, 'zext(i8(arg2[arg4]))': v, 'sext(i8(arg2[arg4]))': v, 'arg2[arg4]': v, 'narrow1(i8(arg2[arg4]))': v}, '')
        if s is None: r.undecided('bool', ' form')
        else: r.ob(f'bool: {bool(v)} is written as the scanner reads it', s in txt, f' writes {s!r}', r.at([e for _, _, e in vs], f))
    f, O, vs = at_type(1)
    lab = 'char: every value reads back'
    for c in range(256):
        s = text_of(O, cenv('arg2[arg4]', c), '')
        if s is None: r.undecided(lab, f' output for {c}'); break
        if read_char(s, ch) != c: r.ob(lab, False, f' {c} is written as {s}, which reads back as {read_char(s, ch)}', r.at([e for _, _, e in vs], f)); break
    else: r.ob(lab, True); r.stats['bytes_evaluated'] = 256
    for k, ir, w, prec in ((10, 'float', 4, 8), (11, 'double', 8, 16)):
        f, O, vs = at_type(k)
        x = f'{ir}(arg2[{w}*arg4])'
        dec = [(o, a, e) for o, a, e in vs if pp(a) in (x, f'todouble({x})', f'fpext({x})') and o in (ir, 'double')]
        hx = [(o, a, e) for o, a, e in vs if lit(a) == '0g']
        for o, a, e in vs:
            if (o, a, e) not in dec and (o, a, e) not in hx and not e.loops: r.ob(f'{NAME[k]}: only the decimal or the hexadecimal form is written', False, f' writes {pp(a)[:100]}', e.loc)
        for c, cn in ((0, 'NaN'), (1, 'infinite'), (2, 'zero'), (3, 'subnormal'), (4, 'normal')):
            for h in (0, 1):
                env = {'this.hexfloat_checkpoint': h, 'i8(this.hexfloat_checkpoint)': h}
                for y in (x, f'fpext({x})', f'todouble({x})'):
                    env.update({f'{p_}fpclassify({y})': c for p_ in ('', 'std::')}); env.update({f'{p_}isfinite({y})': int(c > 1) for p_ in ('', 'std::')})
                    env.update({f'{p_}isnan({y})': int(c == 0) for p_ in ('', 'std::')}); env.update({f'{p_}isinf({y})': int(c == 1) for p_ in ('', 'std::')})
                dm, hm = [F.may(e.guard, env) for _, _, e in dec], [F.may(e.guard, env) for _, _, e in hx]
                if any(len(m) > 1 for m in dm + hm): r.undecided(f'{NAME[k]}: {cn} values', ' condition'); continue
                n, m = sum(1 in y for y in dm), sum(1 in y for y in hm)
                r.ob(f'{NAME[k]}: {cn} values are written once, in {"hexadecimal" if h or c < 2 else "a"} form{"" if h or c < 2 else " the parser reads"}', n + m == 1 and (m == 1 if c < 2 else True), f' decimal {n} times, hexadecimal {m} times', r.at([e for _, _, e in dec + hx], f))
        for o, a, e in dec:
            pr = M.OR(*[z.guard for q, b_, z in O if manip(b_) and manip(b_)[0] == 'setprecision' and (manip(b_)[1] or 0) >= prec and z.order < e.order])
            r.imp(f'{NAME[k]}: decimal values have at least {prec} digits', e.guard, pr, e.loc)
        for o, a, e in hx:
            lp = [z for z in O if z[2].loops and z[2].order > e.order]
            vals = [z for z in lp if not manip(z[1]) and lit(z[1]) is None]
            L = [z for z in f.effects if z.kind == 'loop' and vals and z.blk in (vals[0][2].lids or ())]
            if len(vals) == 1 and L:
                mp = [manip(z[1]) for z in lp if manip(z[1]) and z[2].order < vals[0][2].order]
                r.ob(f'{NAME[k]}: each byte of the hexadecimal form has two digits', ('setw', 2) in mp and ('setfill', 48) in mp and any(m[0] == 'hex' for m in mp), str(mp), vals[0][2].loc)
                seq, ok = [], True
                for n in range(12):
                    try:
                        if not F.evb(L[0].val, {'#iter': n}): break
                        ix = [q for q in subterms(vals[0][1]) if q[0] == 'count']
                        seq.append(F.ev(ix[0], {'#iter': n}))
                    except (F.Unknown, IndexError): ok = False; break
                if ok: r.ob(f'{NAME[k]}: the hexadecimal form has all eight bytes, most significant first', seq == [7, 6, 5, 4, 3, 2, 1, 0], str(seq), vals[0][2].loc)
                else: r.undecided(f'{NAME[k]}: bytes of the hexadecimal form', ' loop')
            else: r.undecided(f'{NAME[k]}: bytes of the hexadecimal form', ' form')
    # enumerations
    for z, ir in ((1, 'i8'), (2, 'i16'), (4, 'i32')):
        f, O, vs = at_type(21, size=z)
        ld = opnd(ir, 'arg2[arg4]' if z == 1 else f'arg2[{z}*arg4]')
        num = [x for x in vs if x[0] in OUTW]
        lbl = [x for x in vs if x[0] not in OUTW and lit(x[1]) is None]
        for o, a, e in num:
            bad = [v for v, g in alts(a, e.guard) if pp(v) not in (ld, f'sext({ld})', f'zext({ld})')]
            r.ob(f'enum of {z} bytes: an unnamed value is written as the number at its place', not bad, f' writes {pp(bad[0])[:120] if bad else ""}', e.loc)
        r.ob(f'enum of {z} bytes: values are written', bool(num or lbl), '', f.label)
        for o, a, e in lbl:
            ts = pp(a) + pbdd(e.guard)
            r.ob(f'enum of {z} bytes: the name written is looked up by the value at its place', ld in ts or f'arg2[{z}*arg4]' in ts, ' writes ' + pp(a)[:160], e.loc)
        decimal(r, f'enum of {z} bytes', f, O, [e for _, _, e in num])
    # bit fields
    for k, sg in ((12, 1), (13, 0)):
        fn = 'extract_bitfield_any' if sg else 'extract_unsigned_bitfield_any'
        for z, ir in ((1, 'i8'), (2, 'i16'), (4, 'i32')):
            f, O, vs = at_type(k, size=z)
            r.same(f'{NAME[k]} in {z} bytes: the value is written', r.tot([e for _, _, e in vs]), 1, r.at([e for _, _, e in vs], f))
            decimal(r, NAME[k], f, O, [e for _, _, e in vs])
            for o, a, e in vs:
                if sg: r.ob(f'{NAME[k]}: written with its sign', o in ('int', 'long', 'long long'), o, e.loc)
                for v, g in alts(a, e.guard):
                    m = re.fullmatch(re.escape(fn) + r'\((?:[sz]ext\()?' + ir + re.escape(f'(arg2[{"" if z == 1 else str(z) + "*"}arg4])') + r'\)?,%d,arg3\.index(?:\[0\])?\.start,arg3\.index(?:\[0\])?\.size\)' % z, pp(v))
                    r.ob(f'{NAME[k]} in {z} bytes: the bits of the field are written', bool(m), ' writes ' + pp(v)[:200], e.loc)
    # strings
    f, O, vs = at_type(3)
    inl = [z for z in vs if z[2].loops]
    q = [z for z in vs if not z[2].loops]
    r.ob('string: written between quotes', len(q) == 2 and all(lit(a) == '"' for _, a, _ in q) and bool(inl) and q[0][2].order < inl[0][2].order < q[1][2].order, str([pp(a) for _, a, _ in q]), r.at([e for _, _, e in q], f))
    string_bytes(r, 'string: every character reads back', inl, esc)
    for e in {z[2].lids[-1]: z[2] for z in inl if z[2].lids}.values():
        for x in f.effects:
            if x.kind == 'loop' and x.blk == e.lids[-1]:
                r.ob('string: every character is written', not [y for y in x.nr if F.norm(y)] and bool(re.search(r'strlen|size\(|length|each ', x.name)) and 'arg2[32*arg4]' in x.name, x.name, x.loc)
    f, O, vs = at_type(18)
    r.ob('wchar_t: values are written as a number or a quoted character', all(o in OUTW or lit(a) for o, a, _ in vs), ' writes raw multibyte text', r.at([e for _, _, e in vs], f))

def nil_values(r, p):
    """values left out of a reduced checkpoint are exactly those that clearing restores"""
    N = 'ClassicCheckPointAgent::is_nil_valued'
    def val(k, env=None, **kw):
        f = r.flow(p, N, typed=True, consts={'arg2.type': k, 'arg2.num_index': 0, 'arg3': 0, **{'arg2.' + n: v for n, v in kw.items()}})
        return f, alts(f.retval(), 1)
    def test(label, k, xs, vals, **kw):
        f, al = val(k, **kw)
        for v, nil in vals:
            env = {}
            for x in xs: env[x] = v
            got = set()
            for t_, g in al:
                m = F.may(g, env)
                if 1 in m: got.add(F.ev(t_, {}) if t_[0] == 'c' else pp(t_)); 
                if m == {0, 1}: got.add('?')
            if '?' in got or any(not isinstance(x, int) for x in got): r.undecided(f'{label}: {v} ', ' form of the test'); continue
            r.ob(f'{label}: {"a nil" if nil else "no other"} value is treated as nil', got == {1} if nil else got == {0}, f' {v} gives {sorted(got)}', f.label)
    for k, (ir, w, sg) in INTS.items():
        x = opnd(ir, 'arg1[arg4]' if w == 1 else f'arg1[{w}*arg4]')
        test(NAME[k], k, [x, f'sext({x})', f'zext({x})'], [(0, 1)] + [(v, 0) for v in (1, 2, 100, 127) + ((-1,) if sg else ()) + ((256, 32767) if w > 1 else ()) + ((65536, 2**31 - 1) if w > 2 else ()) + ((2**32, 2**62) if w > 4 else ())])
    for k in (1,): test(NAME[k], k, ['i8(arg1[arg4])', 'sext(i8(arg1[arg4]))', 'zext(i8(arg1[arg4]))'], [(0, 1), (1, 0), (65, 0), (127, 0)])
    test('bool', 17, ['i8(arg1[arg4])', 'zext(i8(arg1[arg4]))', 'arg1[arg4]', 'sext(i8(arg1[arg4]))'], [(0, 1), (1, 0)])
    for k, ir, w in ((10, 'float', 4), (11, 'double', 8)):
        x = f'{ir}(arg1[{w}*arg4])'
        f, al = val(k)
        for c, v, nil in ((0, None, 0), (1, None, 0), (2, 0, 1), (3, None, 0), (4, None, 0)):
            env = {f'{q}fpclassify({y})': c for q in ('', 'std::') for y in (x, f'fpext({x})')}
            if c == 2: env[x] = 0
            if c == 4: env[x] = 3
            if c == 3: env[x] = 1e-310
            if c == 1: env[x] = float('inf')
            got = set()
            for t_, g in al:
                m = F.may(g, env)
                if 1 in m: got.add(t_[1] if t_[0] == 'c' else '?')
                if m == {0, 1}: got.add('?')
            if '?' in got: r.undecided(f'{NAME[k]}: nil test', ' form'); continue
            r.ob(f'{NAME[k]}: only zero is nil', got == {nil}, f' class {c} gives {sorted(got)}', f.label)
    for k in (3, 19):
        f, al = val(k)
        x = 'arg1[32*arg4]'
        for n in (0, 1, 5):
            env = {f'{q}({x})': n for q in ('size', 'length')}; env.update({f'empty({x})': n == 0})
            got = set()
            for t_, g in al:
                m = F.may(g, env)
                if 1 in m: got.add(t_[1] if t_[0] == 'c' else '?')
                if m == {0, 1}: got.add('?')
            if '?' in got: r.undecided(f'{NAME[k]}: nil test', ' form'); continue
            r.ob(f'{NAME[k]}: only an empty string is nil', got == {int(n == 0)}, f' length {n} gives {sorted(got)}', f.label)
    for z, ir in ((1, 'i8'), (2, 'i16'), (4, 'i32')):
        x = opnd(ir, 'arg1[arg4]' if z == 1 else f'arg1[{z}*arg4]')
        for k in (12, 13, 21): test(f'{NAME[k]} in {z} bytes', k, [x, f'sext({x})', f'zext({x})'], [(0, 1)] + ([(1, 0), (64, 0), (127, 0)] if k == 21 else []), size=z)
    # an array of fixed size is nil when all of it is; a pointer when it is null
    f = r.flow(p, N, typed=True, consts={'arg2.type': 4, 'arg2.num_index': 2, 'arg3': 0})
    for c in r.sel(f, kind='call', name='is_nil_valued'):
        r.ob('array: every element counts', pp(c.args[1]) == 'arg1' and pp(c.args[2]) == 'arg2' and pp(c.args[3]) == '1' and pp(c.args[4]) in ('count(0,1)+mul(arg2.index[0].size,arg4)', 'mul(arg2.index[0].size,arg4)+count(0,1)') and len(c.loops) == 1, ' looks at ' + ', '.join(pp(x)[:80] for x in c.args[1:]), c.loc)
    L = [e for e in f.effects if e.kind == 'loop']
    if len(L) != 1: r.undecided('array: every element counts', ' loops')
    else:
        env = {pp(x): 1 for v in M.support(F.norm(L[0].val)) for x in subterms(M.vars[v]) if pp(x).startswith(('rec(1;', 'call:')) and 'is_nil_valued' in pp(x)}
        cnt = lambda n, i: F.may(L[0].val, {**env, 'arg2.index[0].size': n, 'count(0,1)': i, f'arg2.index[0].size-count(0,1)': n - i, f'count(0,1)-arg2.index[0].size': i - n})
        r.ob('array: all elements are looked at', L[0].name.startswith('i in 0..arg2.index[0].size') or all(cnt(n, i) == {int(i < n)} for n in (1, 2, 7) for i in range(n + 1)), L[0].name, L[0].loc)
    null = t('arg1[8*arg4]') == 0
    # assignment is left out only when nil and asked to
    for k in (3, 4, 11, 21):
        f = r.flow(p, 'ClassicCheckPointAgent::assign_rvalue', typed=True, streams=True, consts={'arg3.type': k, 'this.hexfloat_decimal_comment_checkpoint': 0})
        w = [e for e in f.effects if e.kind == 'call' and e.name.endswith('write_rvalue')]
        for q in (0, 1):
            for red in (0, 1):
                env = {'this.reduced_checkpoint': red, 'i8(this.reduced_checkpoint)': red}
                for x in atoms(w, 'is_nil_valued'): env[x] = q
                for x in atoms(w, 'output_perm_check'): env[x] = 1
                ms = [F.may(e.guard, env) for e in w]
                if any(len(m) > 1 for m in ms): r.undecided('assignments left out', ' condition'); continue
                r.ob(f'{NAME[k]}: an assignment is written unless its value is nil and the checkpoint is reduced (nil {q}, reduced {red})', sum(1 in m for m in ms) == (0 if q and red else 1), '', r.at(w, f))
        for e in w:
            r.ob(f'{NAME[k]}: the value assigned is the one named', [pp(x) for x in e.args[1:4]] == ['arg1', 'arg2', 'arg3'] and pp(e.args[-1]) == 'arg5' and pp(e.args[-2]) in ('0', 'arg4'), str([pp(x) for x in e.args[1:]]), e.loc)

def atoms(es, name):
    """printed forms of the calls of `name` that conditions of es depend on"""
    out = set()
    for e in es:
        for v in M.support(F.norm(e.guard)):
            for x in subterms(M.vars[v]):
                if x[0] in ('t', 'ret') and name in str(x[1]): out.add(x[1] if x[0] == 't' else pp(x))
    return out

def subterms(t):
    out = []
    def w(x):
        if isinstance(x, tuple):
            if x and isinstance(x[0], str): out.append(x)
            for y in x: w(y)
    w(t)
    return out

def off_ok(t_, dim, off):
    """offset of element i of the dimension of `dim` elements inside the whole array"""
    return any(pp(t_) == x for c in ('count(0,1)',) for x in (f'{c}+mul({dim},{off})', f'mul({dim},{off})+{c}', f'{c}+mul({off},{dim})'))

def walk(r, f, label, rec, base, attr, dim, offarg, kpos, opos):
    """the recursion over one fixed dimension visits every element once, at its own offset"""
    cs = [e for e in f.effects if e.kind == 'call' and e.name.endswith(rec)]
    size = f'{attr}.index[0].size'
    r.ob(f'{label}: elements are visited', bool(cs), '', f.label)
    for c in cs:
        r.ob(f'{label}: each element at its own offset, one dimension further in', base in [pp(x) for x in c.args] and pp(c.args[kpos]) == '1' and off_ok(c.args[opos], size, offarg), ' visits ' + ', '.join(pp(x)[:70] for x in c.args[1:]), c.loc)
        L = [e for e in f.effects if e.kind == 'loop' and c.lids and e.blk == c.lids[-1]]
        r.ob(f'{label}: in a loop', len(c.loops) == 1 and len(L) == 1, str(c.loops), c.loc)
        for l in L:
            seq = []
            for n in range(6):
                try:
                    if not F.evb(l.val, {'#iter': n, size: 4}): break
                    ix = [q for q in subterms(c.args[opos]) if q[0] == 'count']
                    seq.append(F.ev(ix[0], {'#iter': n, size: 4}))
                except (F.Unknown, IndexError) as ex: seq = None; r.undecided(label, f' loop {ex}'); break
            if seq is not None: r.ob(f'{label}: every element of the dimension', sorted(seq) == [0, 1, 2, 3], str(seq), l.loc)
        # one visit per iteration, whatever the element
    return cs

def written_arrays(r, p, esc):
    def at_(k, n, cd=0): return r.flow(p, 'ClassicCheckPointAgent::write_rvalue', typed=True, streams=True, consts={'arg3.type': k, 'arg3.num_index': n, 'arg4': cd})
    for k in (1, 3, 4, 11):
        f = at_(k, 0)
        cs = [e for e in f.effects if e.kind == 'call' and e.name.endswith('write_singleton')]
        r.same(f'{NAME[k]}: the value is written', r.tot(cs), 1, r.at(cs, f))
        for c in cs: r.ob(f'{NAME[k]}: the value named is written', [pp(x) for x in c.args[1:]] == ['arg1', 'arg2', 'arg3', 'arg5'], str([pp(x) for x in c.args[1:]]), c.loc)
        for n in (1, 2, 3):
            lab = f'{NAME[k]}, {n} dimensions'
            f = at_(k, n)
            cs = walk(r, f, lab, 'write_rvalue', 'arg2', 'arg3', 0, 'arg5', 4, 5)
            O = outs(f, 'arg1')
            br = [(lit(a), e) for o, a, e in O if lit(a) and lit(a).strip() in '{}' and not e.loops]
            sep = [(lit(a), e) for o, a, e in O if lit(a) and lit(a).strip() == ',']
            fixed = t('arg3.index[0].size') >= 1
            ptr = t('arg3.index[0].size') == 0
            q = [e for o, a, e in O if lit(a) == '"' and not e.loops]
            tq = r.tot(q)
            tel = M.OR(*[e.guard for e in cs])
            for ch_ in '{}': r.imp(f'{lab}: elements between braces', M.AND(tel, gx(fixed)), M.OR(*[e.guard for x, e in br if x.strip() == ch_]), r.at(cs, f))
            for c in cs:
                o1 = [e.order for x, e in br if x.strip() == '{' and sat(e.guard, c.guard)]; o2 = [e.order for x, e in br if x.strip() == '}' and sat(e.guard, c.guard)]
                r.ob(f'{lab}: elements between braces, in order', bool(o1) and bool(o2) and min(o1) < c.order < max(o2), '', c.loc)
                r.imp(f'{lab}: a comma before every element but the first', M.AND(c.guard, M.NOT(gx(t('count(0,1)') <= 0))), M.OR(*[e.guard for x, e in sep if e.loops == c.loops and e.order < c.order]), c.loc, gx(t('count(0,1)') >= 0))
                for x, e in sep:
                    if e.loops == c.loops: r.imp(f'{lab}: no comma before the first element', e.guard, gx(t('count(0,1)') >= 1), e.loc, gx(t('count(0,1)') >= 0))
            r.same(f'{lab}: a fixed dimension is written as a list or as a quoted string', M.AND(M.OR(tel, tq), gx(fixed)), gx(fixed), f.label)
            r.imp(f'{lab}: never both', tel, M.NOT(tq), f.label)
            if q:
                r.ob(f'{lab}: quoted strings are for char arrays', k == 1, '', r.at(q, f))
                quoted_arrays(r, f, lab, q, O, esc)
            pc = [e for e in f.effects if e.kind == 'call' and e.name.endswith('ref_string_from_ptr')]
            po = [e for o, a, e in O if 'ref_string_from_ptr' in pp(a)]
            r.same(f'{lab}: a pointer dimension is written as a reference', M.AND(r.tot(po), gx(ptr)), gx(ptr), r.at(po, f))
            for e in pc: r.ob(f'{lab}: the reference is to what the pointer points to', [pp(x) for x in e.args[1:]] == ['arg2[8*arg5]', 'arg3', '0'], str([pp(x) for x in e.args[1:]]), e.loc)

def quoted_arrays(r, f, lab, q, O, esc):
    """a char array is quoted only when all but its last byte are printable and the last is zero"""
    n = 4
    size = 'arg3.index[0].size'
    inl = [z for z in O if z[2].loops and not manip(z[1]) and q[0].order < z[2].order < q[-1].order]
    if len(q) == 2 and inl:
        string_bytes(r, f'{lab}: every character reads back', inl, esc, M.sat_one(F.norm(q[0].guard)))
        for e in inl[:1]:
            for x in f.effects:
                if x.kind == 'loop' and x.blk == e[2].lids[-1]: r.ob(f'{lab}: the quoted string is the array itself', f'arg2[mul({size},arg5)' in x.name or f'+mul({size},arg5)' in x.name, x.name, x.loc)
    else: r.undecided(f'{lab}: quoted string', ' form')
    for e in q:
        ts = {pp(x) for v in M.support(F.norm(e.guard)) for x in subterms(M.vars[v])}
        txt = pbdd(e.guard)
        last = any(f'i8(arg2[{size}+mul({size},arg5)-1])' in x for x in list(ts) + [txt])
        each = 'isprint(sext(i8(arg2[count(' in txt or any('isprint' in x for x in ts)
        r.ob(f'{lab}: quoted only if the last byte is zero', last, ' the last byte is not looked at', e.loc)
        r.ob(f'{lab}: quoted only if every other byte is printable', each, ' the bytes are not looked at', e.loc)
        L = [x for x in f.effects if x.kind == 'loop' and x.order < e.order and 'isprint' in x.name]
        for l in L:
            seq = []
            for i in range(8):
                ix = [z for v in M.support(l.val) for z in subterms(M.vars[v]) if z[0] == 'count']
                if not ix: seq = None; break
                try:
                    c = F.ev(ix[0], {'#iter': i, size: n})
                    if c < 0 or c >= n: break
                    seq.append(c)
                except F.Unknown: seq = None; break
            if seq is None: r.undecided(f'{lab}: bytes looked at', ' loop')
            else: r.ob(f'{lab}: every byte but the last is looked at', sorted(seq) in ([0, 1, 2], [0, 1, 2, 3]), str(seq), l.loc)

ASSIGN = {1: ('char', 1), 2: ('char', 1), 4: ('short', 2), 5: ('short', 2), 6: ('int', 4), 7: ('int', 4), 8: ('long', 8), 9: ('long', 8), 14: ('longlong', 8), 15: ('longlong', 8), 10: ('float', 4), 11: ('double', 8), 3: ('string', 0)}
WIDER = {'char': ('char', 'short', 'int', 'long', 'longlong'), 'short': ('short', 'int', 'long', 'longlong'), 'int': ('int', 'long', 'longlong'), 'long': ('long', 'longlong'), 'longlong': ('longlong', 'long'), 'float': ('float', 'double'), 'double': ('double',), 'string': ('string',)}
def core(x):
    while True:
        m = re.fullmatch(r'(?:sext|zext|narrow\d+|tofloat|todouble|fpext)\((.*)\)', x)
        if not m: return x
        x = m[1]

def restore_values(r):
    u = r.unit([MMD + 'MemoryManager_ref_assignment.cpp'])
    p = u.extract(roots=['MemoryManager::assign_recursive\\('], opaque=['operator', 'basic_string', 'message', 'vval_', 'cv_convert', 'get_size', 'bitfield', 'emitError', 'emitWarning'] + opq('MemoryManager'))
    N = 'MemoryManager::assign_recursive'
    def at_(k, n=0, **kw): return r.flow(p, N, typed=True, consts={'arg2.type': k, 'arg2.num_index': n, 'arg3': 0, 'this.debug_level': 0, **{'arg2.' + x: v for x, v in kw.items()}})
    have = b('arg5') & b('arg5.v_data')
    for k, (fn, w) in ASSIGN.items():
        for stl in (0, 1) if k in (3, 11) else (0,):
            f = at_(24, stl_elem_type=k) if stl else at_(k)
            lab = ('STL element ' if stl else '') + NAME[k]
            w_ = w or 32
            dst = 'arg1[arg4]' if w_ == 1 else f'arg1[{w_}*arg4]'
            st = [e for e in f.effects if e.kind == 'store' and _addr(e.addr).startswith('arg1')]
            for e in st:
                r.ob(f'restoring {lab}: stored at its own place', _addr(e.addr) == dst, ' stores at ' + _addr(e.addr), e.loc)
                if w: r.ob(f'restoring {lab}: stored with its width', e.ty in (f'i{8 * w}', 'float', 'double')[:1] or k in (10, 11) and e.ty == ('float' if k == 10 else 'double'), e.ty, e.loc)
            cv = gx(b('arg6')) if k not in (1, 2, 3, 4, 5) else 0
            good = [e for e in st if any(core(pp(e.val)) == f'vval_{x}(arg5.v_data)' for x in WIDER[fn])]
            r.same(f'restoring {lab}: the value read is stored', M.AND(r.tot(good), gx(have), M.NOT(cv)), M.AND(gx(have), M.NOT(cv)), r.at(st, f))
            r.same(f'restoring {lab}: some value is stored', r.tot(st), 1, r.at(st, f))
            for e in st:
                if e in good: continue
                v = pp(e.val)
                conv = 'cv_convert_' in v
                ok = (v in ('0', '""', 'f0') and not sat(e.guard, have)) or (conv and M.AND(F.norm(e.guard), M.NOT(cv)) == 0) or (k == 3 and v in ('""', '0', '') and 'vval_string' in pbdd(e.guard))
                r.ob(f'restoring {lab}: only the value read, or zero without one, is stored', ok, f' stores {v[:100]} when ' + pbdd(e.guard)[:160], e.loc)
    f = at_(17)
    st = [e for e in f.effects if e.kind == 'store' and _addr(e.addr) == 'arg1[arg4]']
    for v in (0, 1):
        got = set()
        for e in st:
            env = {'arg5': 1, 'arg5.v_data': 1, **{f'vval_{x}(arg5.v_data)': v for x in ('char', 'short', 'int', 'long', 'longlong')}}
            for a, g in alts(e.val, e.guard):
                m = F.may(g, env)
                if 1 in m:
                    try: got.add(F.ev(a, env))
                    except F.Unknown: got.add('?')
        if '?' in got or not got: r.undecided('restoring bool', ' form')
        else: r.ob(f'restoring bool: {v} is stored', {int(bool(x)) for x in got} == {v}, str(got), r.at(st, f))
    for z in (1, 2, 4):
        dst = 'arg1[arg4]' if z == 1 else f'arg1[{z}*arg4]'
        f = at_(21, size=z)
        st = [e for e in f.effects if e.kind == 'store' and _addr(e.addr).startswith('arg1')]
        r.same(f'restoring enum of {z} bytes: stored when a value was read', M.AND(r.tot(st), gx(have)), have, r.at(st, f))
        for e in st: r.ob(f'restoring enum of {z} bytes: the value read, at its place and width', _addr(e.addr) == dst and e.ty == f'i{8 * z}' and core(pp(e.val)) in [f'vval_{x}(arg5.v_data)' for x in ('char', 'short', 'int', 'long', 'longlong')[(0 if z == 1 else 1 if z == 2 else 2):]], f' stores {pp(e.val)} at {_addr(e.addr)} as {e.ty}', e.loc)
        for k in (12, 13):
            f = at_(k, size=z)
            bitstores(r, f, f'restoring {NAME[k]} in {z} bytes', z, dst, r'.*vval_(int|long|longlong)\(arg5\.v_data\).*', 'arg2')
    # a pointer dimension gets the address read
    for k in (1, 3, 4, 11):
        f = at_(k, 2)
        walk(r, f, f'restoring {NAME[k]} array', 'assign_recursive', 'arg1', 'arg2', 0, 'arg4', 3, 4)
        st = [e for e in f.effects if e.kind == 'store' and _addr(e.addr).startswith('arg1[8*')]
        ptr = t('arg2.index[0].size') == 0
        r.same(f'restoring {NAME[k]} pointer: a value is stored', M.AND(r.tot(st), gx(ptr)), ptr, r.at(st, f))
        for e in st:
            v = pp(e.val)
            r.ob(f'restoring {NAME[k]} pointer: the address read, or null without one', v == 'vval_voidp(arg5.v_data)' or v == '0' and not sat(e.guard, have), f' stores {v[:100]}', e.loc)
        for e in f.effects:
            if e.kind != 'call' or not e.name.endswith('assign_recursive'): continue
            v = pp(e.args[5])
            r.ob(f'restoring {NAME[k]} array: elements get the values of the list in order', 'arg5.down' in v and 'self.next' in v, ' passes ' + v[:200], e.loc)
    f = at_(1, 1)
    cp = [e for e in f.effects if e.kind == 'call' and re.search(r'(^|::)(strcpy|memcpy|strncpy)', e.name)]
    sz = t('arg2.index[0].size')
    
    if not cp: r.undecided('restoring a char array from a string', ' form')
    for e in cp:
        ok = [pp(x).lstrip('&') for x in e.args[:2]] == ['arg1[mul(arg2.index[0].size,arg4)]', 'arg5.v_data.value']
        r.ob('restoring a char array: the string read goes to the array', ok, str([pp(x) for x in e.args]), e.loc)
        if e.name.endswith('strcpy'):
            for n, size, fits in ((3, 4, 1), (4, 4, 0), (0, 1, 1), (9, 10, 1), (12, 10, 0)):
                env = {'arg5': 1, 'arg5.v_data': 1, 'arg5.v_data.type': 3, 'arg5.v_data.value': 1, 'arg2.index[0].size': size, 'strlen(arg5.v_data.value)': n}
                m = F.may(e.guard, env)
                if len(m) > 1: r.undecided('restoring a char array', ' condition'); continue
                r.ob('restoring a char array: a string is stored exactly when it fits with its terminator', (1 in m) == bool(fits), f' length {n} into {size}', e.loc)

def bitstores(r, f, lab, z, dst, valre, attr):
    st = [e for e in f.effects if e.kind == 'store' and _addr(e.addr).startswith('arg1')]
    ir = {1: 'i8', 2: 'i16', 4: 'i32'}[z]
    r.same(f'{lab}: stored', r.tot(st), 1, r.at(st, f))
    for e in st:
        m = re.fullmatch(r'(?:narrow\d+\()?insert_bitfield_any\((?:[sz]ext\()?' + re.escape(f'{ir}({dst})') + r'\)?,(.*),%d,%s\.index(?:\[0\])?\.start,%s\.index(?:\[0\])?\.size\)\)?' % (z, attr, attr), pp(e.val))
        r.ob(f'{lab}: only the bits of the field change', bool(m) and _addr(e.addr) == dst and e.ty == ir and bool(re.fullmatch(valre, m[1])), f' stores {pp(e.val)[:200]} at {_addr(e.addr)}', e.loc)

def clear_values(r):
    u = r.unit([MMD + 'MemoryManager_clear_memory.cpp'])
    p = u.extract(roots=['MemoryManager::clear_rvalue\\('], opaque=['operator', 'basic_string', 'message', 'bitfield', 'emitError', 'emitWarning'] + opq('MemoryManager'))
    N = 'MemoryManager::clear_rvalue'
    def at_(k, n=0, **kw): return r.flow(p, N, typed=True, consts={'arg2.type': k, 'arg2.num_index': n, 'arg3': 0, 'this.debug_level': 0, **{'arg2.' + x: v for x, v in kw.items()}})
    W = {k: (w or 32) for k, (_, w) in ASSIGN.items()}; W.update({17: 1, 18: 4, 19: 32})
    for k, w in sorted(W.items()):
        f = at_(k)
        dst = 'arg1[arg4]' if w == 1 else f'arg1[{w}*arg4]'
        st = [e for e in f.effects if e.kind == 'store' and _addr(e.addr).startswith('arg1')]
        r.same(f'clearing {NAME[k]}: stored', r.tot(st), 1, r.at(st, f))
        for e in st: r.ob(f'clearing {NAME[k]}: the nil value, at its place and width', _addr(e.addr) == dst and pp(e.val) in (('""', '""') if w == 32 else ('0', 'f0')) and (w == 32 or e.ty in (f'i{8 * w}', 'float' if w == 4 else 'double')), f' stores {pp(e.val)[:60]} at {_addr(e.addr)} as {e.ty}', e.loc)
    for z in (1, 2, 4):
        dst = 'arg1[arg4]' if z == 1 else f'arg1[{z}*arg4]'
        f = at_(21, size=z)
        st = [e for e in f.effects if e.kind == 'store' and _addr(e.addr).startswith('arg1')]
        r.same(f'clearing enum of {z} bytes: stored', r.tot(st), 1, r.at(st, f))
        for e in st: r.ob(f'clearing enum of {z} bytes: zero, at its place and width', _addr(e.addr) == dst and pp(e.val) == '0' and e.ty == f'i{8 * z}', f' stores {pp(e.val)[:60]} at {_addr(e.addr)} as {e.ty}', e.loc)
        for k in (12, 13): bitstores(r, at_(k, size=z), f'clearing {NAME[k]} in {z} bytes', z, dst, r'0', 'arg2')
    for k in (3, 4, 11):
        f = at_(k, 2)
        walk(r, f, f'clearing {NAME[k]} array', 'clear_rvalue', 'arg1', 'arg2', 0, 'arg4', 3, 4)
        st = [e for e in f.effects if e.kind == 'store' and _addr(e.addr).startswith('arg1')]
        ptr = t('arg2.index[0].size') == 0
        r.same(f'clearing {NAME[k]} pointer: null is stored', M.AND(r.tot(st), gx(ptr)), ptr, r.at(st, f))
        for e in st: r.ob(f'clearing {NAME[k]} pointer: null is stored', _addr(e.addr) == 'arg1[8*arg4]' and pp(e.val) == '0', f' stores {pp(e.val)[:60]} at {_addr(e.addr)}', e.loc)
    f = at_(24)
    cs = [e for e in f.effects if e.kind == 'call' and 'clear_stl' in ' '.join([e.name] + [pp(x) for x in e.args])]
    r.same('clearing STL: its clear function is called', r.tot(cs), b('arg2.clear_stl'), r.at(cs, f))

def parsed_values(r):
    """what the parser hands over reaches the variable: integers as long long, reals as double, strings, addresses"""
    u = r.unit([MMD + 'vval.c'])
    p = u.extract(roots=['^vval_'], opaque=[])
    LL, D = (14, 15), 11
    def val(fn, k):
        f = r.flow(p, 'vval_' + fn, typed=r'.*\.value', consts={'arg1.type': k})
        return f, [pp(a) for a, g in alts(f.retval(), 1)]
    for fn, w in (('char', 8), ('short', 16), ('int', 32), ('long', 64), ('longlong', 64)):
        for k in LL:
            f, v = val(fn, k)
            ok = {f'i{b}(arg1.value)' for b in (8, 16, 32, 64) if b >= w}
            r.ob(f'reading an integer as {fn}', len(v) == 1 and core(v[0]) in ok and not (w > 32 and 'narrow' in v[0]), f' gives {v}', f.label)
    for fn in ('double', 'float'):
        f, v = val(fn, D)
        r.ob(f'reading a real as {fn}', len(v) == 1 and core(v[0]) == 'double(arg1.value)' and not (fn == 'double' and 'tofloat' in v[0]), f' gives {v}', f.label)
        for k in LL:
            f, v = val(fn, k)
            r.ob(f'reading an integer as {fn}', len(v) == 1 and core(v[0]) == ('utofp' if k in (9, 15) else 'tofp') + '(i64(arg1.value))', f' gives {v}', f.label)
    for fn, k in (('string', 3), ('voidp', 20)):
        f, v = val(fn, k)
        r.ob(f'reading a {fn}', v == ['arg1.value'], f' gives {v}', f.label)
    for k in LL:
        f, v = val('voidp', k)
        r.ob('reading a null address', len(v) == 1 and core(v[0]) in ('arg1.value', 'i64(arg1.value)', '0'), f' gives {v}', f.label)

def eq_atoms(g, name): return any(name in repr(M.vars[v]) or name in patoms(M.vars[v]) for v in M.support(F.norm(g)))
def patoms(k):
    try: return ' '.join(pp(x) for x in k[1:] if isinstance(x, tuple))
    except Exception: return ''


# ------------------------------------------------------------------ recorded files
LENW = {'hh': 1, 'h': 2, '': 4, 'l': 8, 'll': 8, 'j': 8, 'z': 8, 't': 8}
SIZES = {1: (1,), 2: (1,), 3: (8,), 4: (2,), 5: (2,), 6: (4,), 7: (4,), 8: (8,), 9: (8,), 10: (4,), 11: (8,), 12: (1, 2, 4), 13: (1, 2, 4), 14: (8,), 15: (8,), 17: (1,), 21: (1, 2, 4)}
def int_type(T, size): return ('i%d' % (8 * size), size, 1) if T == 21 else ('i8', 1, 0) if T == 17 else INTS.get(T)

def int_print(fmt, val, load, ir, w, sg):
    """does printing `val` with `fmt` show the w-byte integer at `load`? None: not recognised"""
    m = re.fullmatch(r'%(hh|h|ll|l|j|z|t|)([diu])', fmt)
    if not m:
        return False if re.fullmatch(r'%[-+ #0]*\d*(?:\.\d+)?(?:hh|h|ll|l|j|z|t|)[oxXcsp]', fmt) else None
    W, sgn = LENW[m[1]], m[2] != 'u'
    x = f'{ir}({load})'
    v = pp(val)
    if v == x: vw, ext = w, 0 if w == 1 else None
    elif v == f'sext({x})': vw, ext = 8, 1
    elif v == f'zext({x})': vw, ext = 8, 0
    else: return None
    if ext is not None and ext != sg and W > w: return False
    if W < w: return False
    if W > w and ext is None: return False
    if W == w: return sgn == bool(sg)
    return True if sgn else not sg            # wider: a negative value needs a signed conversion

def elem(base, size, idx): return f'{base}[{idx}]' if size == 1 else f'{base}[{size}*{idx}]'

def bit_get(r, label, v, g, base, size, idx, ref, sg, at):
    """the value is the bit field of `size` bytes at base[size*idx]"""
    fn = 'extract_bitfield_any' if sg else 'extract_unsigned_bitfield_any'
    ir = 'i%d' % (8 * size)
    n, un = 0, []
    for a, ga in alts(v, g):
        e = core_t(a)
        if F.may(ga, {f'{ref}.attr.size': size, 'count(0,1)': 0, 'size(this.rec_buffer)': 2}) == {0}: continue
        n += 1
        if e[0] != 'ret' or not re.fullmatch('extract_(unsigned_)?bitfield_any', e[1]): un.append(pp(a)[:120]); continue
        x = f'{ir}({elem(base, size, idx)})'
        vals = {x} if size == 4 else {f'{"sext" if sg else "zext"}({x})'}
        if size < 4: vals |= {f'zext({x})', f'sext({x})'}
        a_ = [pp(y) for y in e[2:]]
        r.ob(label, e[1] == fn and a_[0] in vals and a_[1] in (f'{ref}.attr.size', str(size)) and a_[2] == f'{ref}.attr.index.start' and a_[3] == f'{ref}.attr.index.size', ' is ' + pp(a)[:300], at)
    if un or not n: r.undecided(label, ' ' + str(un[:2]))

def core_t(a):
    while a[0] in ('sext', 'zext', 'trunc', 'toint') or (a[0] == 'cast' and len(a) == 3): a = a[-1]
    return a

def d03(r):
    u = r.unit([DRD + 'DRAscii.cpp', DRD + 'DRBinary.cpp', MMD + 'ReferenceUtils.cpp'])
    p = u.extract(roots=[r'DRAscii::(copy_data_ascii_item|format_specific_write_data|format_specific_init|set_single_prec_only|DRAscii)\(', r'DRBinary::(format_specific_write_data|format_specific_init)\(', r'ReferenceUtils::effective_trick_(type|size)\('],
                  opaque=['effective_trick_', 'copy_data_ascii_item', 'message_publish', r'register_group_with_mm', r'DataRecordGroup::'])
    ET, ES = 'ReferenceUtils::effective_trick_type()', 'ReferenceUtils::effective_trick_size()'
    # ---- one value in an ASCII record
    for T, sizes in SIZES.items():
        for size in sizes:
            lb = f'a recorded {NAME[T]}' + (f' of {size} bytes' if len(sizes) > 1 else '')
            f = r.flow(p, 'DRAscii::copy_data_ascii_item', typed=True, streams=True, consts={ET: T, ES: size, 'arg1.ref.attr.size': size})
            ld = elem('arg1.buffer', size, 'arg2')
            pr = r.sel(f, 's?n?printf')
            other = [e for e in f.effects if e.kind == 'store' and F._addr(e.addr).startswith(('*arg3', 'arg3'))] + [e for e in f.effects if e.kind == 'call' and e.name not in ('snprintf', 'sprintf', 'extract_bitfield_any', 'extract_unsigned_bitfield_any', 'ReferenceUtils::effective_trick_type', 'ReferenceUtils::effective_trick_size')]
            if not pr:
                if not other and not f.effects[2:]: r.ob(lb + ' appears in an ASCII file', False, ' nothing is written', f.label)
                else: r.undecided(lb + ' appears in an ASCII file', ' form')
                if other and all(e.kind == 'store' and pp(e.val) == '0' for e in other): r.ob(lb + ' appears in an ASCII file', False, ' the column stays empty', r.at(other))
                continue
            if F.norm(M.NOT(r.tot(pr))) == 0 or not other: r.same(lb + ' appears in an ASCII file', r.tot(pr), TRUE, r.at(pr))
            else: r.undecided(lb + ' appears in an ASCII file', ' form')
            for e in pr:
                if e.name == 'sprintf': r.ob(lb + ': the ASCII text is bounded', False, ' sprintf', e.loc); continue
                cap = pp(e.args[1])
                if cap.startswith('&this.writer_buff[this.writer_buff_size]-'): r.ob(lb + ': the ASCII text is bounded', cap.endswith('-' + pp(e.args[0])), cap, e.loc)
                elif re.fullmatch(r'.*arg3.*', pp(e.args[0])): r.undecided(lb + ': the ASCII text is bounded', ' ' + cap[:80])
                fm, val = e.args[2], e.args[3] if len(e.args) > 3 else ('n', 0)
                lab = lb + ' is written as its value in an ASCII file'
                if T in (12, 13):
                    fs = lit(fm)
                    m = re.fullmatch(r'%(l|ll|)([du])', fs or '')
                    if m: r.ob(lab + ' (conversion)', m[2] == ('d' if T == 12 else 'u') or (T == 13 and m[1] != ''), fs, e.loc)
                    bit_get(r, lab, val, e.guard, 'arg1.buffer', size, 'arg2', 'arg1.ref', T == 12, e.loc)
                elif T in (10, 11):
                    v = 'float' if T == 10 else 'double'
                    fields = {10: 'c_str(this.ascii_float_format)', 11: 'c_str(this.ascii_double_format)'}
                    x = f'{v}({ld})'
                    ok = pp(val) in (x, f'fpext({x})')
                    if not ok and f'({ld})' not in pp(val) and 'arg1' not in pp(val): r.undecided(lab, ' ' + pp(val)[:100])
                    else: r.ob(lab, ok, ' is ' + pp(val)[:200], e.loc)
                    fs = lit(fm)
                    if fs is not None:
                        m = re.fullmatch(r'%[-+ 0#]*\d*\.(\d+)[eEgG]', fs)
                        r.ob(lb + ': the text has the documented precision', bool(m) and int(m[1]) >= (8 if T == 10 else 16), fs, e.loc)
                    elif pp(fm) in fields.values(): r.ob(lb + ': the text has the format set for its type', pp(fm) == fields[T], pp(fm), e.loc)
                    else: r.undecided(lb + ': format', ' ' + pp(fm)[:100])
                elif T == 3:
                    if lit(fm) is None or 'arg1' not in pp(val): r.undecided(lab, ' form')
                    else: r.ob(lab, lit(fm) == '%s' and pp(val) == ld, f' {lit(fm)} of {pp(val)}'[:200], e.loc)
                elif T == 1:
                    fs = lit(fm); v = pp(val)
                    k = v in (f'sext(i8({ld}))', f'zext(i8({ld}))', f'i8({ld})')
                    if fs is None or 'arg1' not in v: r.undecided(lab, ' form')
                    else: r.ob(lab, k and fs in ('%c',), f' {fs} of {v}'[:200], e.loc)
                else:
                    ir, w, sg = int_type(T, size)
                    fs = lit(fm)
                    ok = int_print(fs, val, ld, ir, w, sg) if fs is not None else None
                    if ok is None and fs is not None and T != 17:
                        # another element, another width or another object
                        m = re.fullmatch(r'(?:[sz]ext\()?(i\d+)\((arg1\.buffer\[.*\])\)+', pp(val))
                        if m and (m[1] != ir or m[2] != ld): ok = False
                    if ok is None: r.undecided(lab, f' {fs} of {pp(val)}'[:150])
                    else: r.ob(lab, ok, f' {fs} of {pp(val)}'[:250], e.loc)
    # ---- formats
    for fn, pre in (('DRAscii::DRAscii', None), ('DRAscii::set_single_prec_only', 'sp')):
        f = r.flow(p, fn, typed=True)
        for fld, n in (('ascii_float_format', 8), ('ascii_double_format', 16)):
            for e in r.parts(r.stores(f, 'this.' + fld)):
                if lit(e.val) is None: r.undecided(f'{fn}: {fld}', ' ' + pp(e.val)[:80]); continue
                m = re.fullmatch(r'%[-+ 0#]*\d*\.(\d+)[eEgG]', lit(e.val))
                need = n
                if pre and F.norm(M.AND(e.guard, gx(~(b('this.single_prec_only') | b('arg1'))))) == 0: need = 8
                r.ob(f'{fn}: {fld} shows {need} digits', bool(m) and int(m[1]) >= need, lit(e.val), e.loc)
            if fn.endswith('::DRAscii'): r.ob(f'{fn}: {fld} is set', bool(r.stores(f, 'this.' + fld)), '', f.label)
    # ---- one ASCII record
    f = r.flow(p, 'DRAscii::format_specific_write_data', typed=True, streams=True)
    cs = r.sel(f, r'DRAscii::copy_data_ascii_item')
    L = 'one column per recorded variable, in order'
    first = [e for e in cs if not e.loops]
    inl = [e for e in cs if e.loops]
    r.ob(L + ': all columns', bool(inl), '', r.at(cs, f))
    for e in first: r.ob(L + ': first', pp(e.args[1]) == 'this.rec_buffer[0]', pp(e.args[1]), e.loc); r.same(L + ': first always', e.guard, TRUE, e.loc)
    for e in inl:
        d = e.loops[0]
        m = re.fullmatch(r'each this\.rec_buffer( from 1)?', d) or re.fullmatch(r'\w+ in ([01])\.\.size\(this\.rec_buffer\)', d)
        if not m: r.undecided(L, ' loop ' + d); continue
        st = 1 if m[1] in ('1', ' from 1') else 0
        r.ob(L + ': all variables', (st == 1) == bool(first), d, e.loc)
        r.every(L + ': loop', f, re.escape(d))
        r.ob(L + ': each its own', pp(e.args[1]) in ('this.rec_buffer[*]', 'this.rec_buffer[1..]'), pp(e.args[1]), e.loc)
        r.same(L + ': no variable is left out', e.guard, M.OR(*[x.guard for x in f.effects if x.kind == 'loop' and x.name == d]), e.loc, )
        dl = [x for x in r.sel(f, 'snprintf|strcat|strncat|memcpy|strcpy') if 'this.delimiter' in ' '.join(pp(a) for a in x.args)]
        if not dl: r.undecided(L + ': delimiter', ' form')
        else:
            dl1 = [x for x in dl if x.loops == e.loops]
            r.ob(L + ': a delimiter between columns', len(dl1) >= 1 and len(dl) == len(dl1), '', r.at(dl))
            if st: r.ob(L + ': the delimiter precedes the column', all(x.order < e.order for x in dl1), '', r.at(dl1)); r.same(L + ': every column has a delimiter', r.tot(dl1), TRUE, r.at(dl1))
    for e in cs: r.ob('a record takes the sample it was asked for', pp(e.args[2]) == 'arg1', pp(e.args[2]), e.loc)
    bad = [x for x in r.sel(f, 'sprintf|strcpy') if not x.name.startswith('sn')] + [x for x in r.sel(f, 'strcat')]
    r.ob('text appended to a record is bounded by the record buffer', not bad, str(bad)[:200], r.at(bad, f))
    for x in r.sel(f, 'snprintf'):
        cap = pp(x.args[1])
        if cap.startswith('&this.writer_buff[this.writer_buff_size]-'): r.ob('the delimiter is bounded by the record buffer', cap == '&this.writer_buff[this.writer_buff_size]-' + pp(x.args[0]), cap[:200], x.loc)
        else: r.undecided('the delimiter is bounded by the record buffer', ' ' + cap[:100])
    o = outs(f)
    recs = [x for x in o if pp(x[1]) == 'this.writer_buff']
    if recs:
        r.same('every record is put in the file', r.tot([x[2] for x in recs]), TRUE, recs[0][2].loc)
        r.ob('every record ends with a newline', any((manip(a) or ('',))[0] == 'endl' or (lit(a) or '').endswith('\n') or pp(a) == '10' for _, a, e in o if e.order > recs[-1][2].order), '', recs[-1][2].loc)
        r.ob('the record is complete when it is put in the file', all(e.order < recs[0][2].order for e in cs), '', recs[0][2].loc)
    else: r.undecided('every record is put in the file', ' form')
    # ---- header row of an ASCII file
    f = r.flow(p, 'DRAscii::format_specific_init', typed=True, streams=True)
    o = outs(f)
    names = [(a, e) for _, a, e in o if pp(a).endswith('.ref.reference')]
    L = 'the header row names every variable in column order'
    n0 = [x for x in names if not x[1].loops]; n1 = [x for x in names if x[1].loops]
    r.ob(L, bool(n1), '', f.label)
    for a, e in n0: r.ob(L + ': first', pp(a) == 'this.rec_buffer[0].ref.reference', pp(a), e.loc)
    for a, e in n1:
        if re.fullmatch(r'each this\.rec_buffer( from 1)?', e.loops[0]):
            r.ob(L + ': the rest', (e.loops[0].endswith(' from 1')) == bool(n0) and pp(a) in ('this.rec_buffer[*].ref.reference', 'this.rec_buffer[1..].ref.reference'), f'{e.loops[0]} {pp(a)}', e.loc)
            r.every(L + ': loop', f, re.escape(e.loops[0]))
            dl = [x for _, y, x in o if 'this.delimiter' in pp(y) and x.loops == e.loops]
            if n0: r.ob(L + ': a delimiter before each', len(dl) == 1 and dl[0].order < e.order and F.norm(M.XOR(dl[0].guard, e.guard)) == 0, '', r.at(dl, f))
    for _, a, e in o:
        m = re.fullmatch(r'(this\.rec_buffer\[[^\]]*\])\.ref\.attr\.units', pp(a))
        if m:
            r.imp(L + ': units belong to the named variable', e.guard, b(m[0]), e.loc)
            r.ob(L + ': units belong to the named column', any(pp(x) == m[1] + '.ref.reference' and y.loops == e.loops and y.order < e.order for x, y in names), '', e.loc)
    # ---- one binary record
    for T, sizes in SIZES.items():
        if T == 3: continue
        for size in sizes:
            lb = f'a recorded {NAME[T]}' + (f' of {size} bytes' if len(sizes) > 1 else '')
            f = r.flow(p, 'DRBinary::format_specific_write_data', typed=True, consts={ET: T, ES: size, 'this.rec_buffer[*].ref.attr.size': size})
            ms = r.sel(f, 'memcpy|memmove')
            ws = r.sel(f, 'write')
            it = 'this.rec_buffer[*]'
            lab = lb + ' is written as its bytes in a binary file'
            if not ms: r.ob(lab, len([e for e in f.effects if e.kind == 'store']) > 0 or any(e.kind == 'call' and not re.fullmatch(r'write|ReferenceUtils.*|extract.*', e.name) for e in f.effects), ' nothing is copied', f.label); continue
            for e in ms:
                if e.loops != ('each this.rec_buffer',): r.undecided(lab, f' loop {e.loops}'); continue
                r.every(lab + ': all variables', f, re.escape(e.loops[0]))
                d, s, n = (pp(x) for x in e.args[:3])
                if re.fullmatch(r'&this\.writer_buff\[.*\]|this\.writer_buff', d):
                    r.ob(lab + ': the columns follow each other', d == ('&this.writer_buff[*]' if size == 1 else f'&this.writer_buff[count(0,{size})]'), d, e.loc)
                else: r.undecided(lab + ': the columns follow each other', ' ' + d)
                r.ob(lab + ': size', n == str(size), n, e.loc)
                if T in (12, 13): bit_get(r, lab, e.args[1], e.guard, f'{it}.buffer', size, 'arg1', f'{it}.ref', T == 12, e.loc)
                elif s.startswith('&this.rec_buffer'): r.ob(lab, s == '&' + elem(f'{it}.buffer', size, 'arg1'), s, e.loc)
                else: r.undecided(lab, ' ' + s[:100])
            if len(ws) == 1 and pp(ws[0].args[1]) == 'this.writer_buff':
                r.ob(lb + ': a binary record is as long as its columns', pp(ws[0].args[2]) == f'count(0,{size})', pp(ws[0].args[2]), ws[0].loc)
                r.ob(lb + ': a binary record goes to the file of the group', pp(ws[0].args[0]) == 'this.fd', '', ws[0].loc)
                r.same(lb + ': a binary record is always written', ws[0].guard, TRUE, ws[0].loc)
            else: r.undecided(lb + ': a binary record is as long as its columns', ' form')
    # ---- header of a binary file
    f = r.flow(p, 'DRBinary::format_specific_init')
    ws = r.sel(f, 'write')
    L = 'binary header: '
    W = [(e.loops, pp(e.args[1]), pp(e.args[2]), e) for e in ws]
    it = 'this.rec_buffer[*]'
    top = [x for x in W if not x[0]]
    r.ob(L + 'magic and byte order, then the number of variables', [x[1:3] for x in top] in ([('"Trick-10-L"', '10'), ('size(this.rec_buffer)', '4')],), str([x[1:3] for x in top]), r.at([x[3] for x in top], f))
    inner = [x for x in W if x[0]]
    if any(x[0] != ('each this.rec_buffer',) for x in inner): r.undecided(L + 'per variable', ' loop')
    else:
        ref, un = f'{it}.ref.reference', f'{it}.ref.attr.units'
        for lab, dash_ in (('named units', False), ('no units', True)):
            got = [x[1:3] for x in inner if F.may(x[3].guard, {f'and(4,{it}.ref.attr.mods)': 4 * dash_}) != {0}]
            u_ = [('2', '4'), ('"--"', '2')] if dash_ else [(f'strlen({un})', '4'), (un, f'strlen({un})')]
            exp = [(f'strlen({ref})', '4'), (ref, f'strlen({ref})')] + u_ + [(f'ReferenceUtils::effective_trick_type({it}.ref)', '4'), (f'ReferenceUtils::effective_trick_size({it}.ref)', '4')]
            if any('?' in x[0] or 'ite(' in x[0] for x in got): r.undecided(L + f'variable with {lab}', ' form'); continue
            r.ob(L + f'variable with {lab}', got == exp, f' {got} instead of {exp}'[:500], r.at([x[3] for x in inner], f))
        r.every(L + 'all variables', f, re.escape('each this.rec_buffer'))
    # ---- the type a column is written with
    f = r.flow(p, 'ReferenceUtils::effective_trick_type', typed=True)
    fs = r.flow(p, 'ReferenceUtils::effective_trick_size', typed=True)
    for fl, ok in ((f, 'type'), (fs, 'size')):
        got = {}
        for a, g in alts(fl.retval(), TRUE): got[pp(a)] = M.OR(got.get(pp(a), 0), g)
        r.ob(f'the {ok} of a column', f'arg1.attr.{ok}' in got, str(list(got))[:200], fl.label)
        pl = b('arg1') & b('arg1.attr') & ~(t('arg1.attr.type') == 24)
        if f'arg1.attr.{ok}' in got: r.imp(f'a variable that is no container has its own {ok}', pl, got[f'arg1.attr.{ok}'], fl.label)
    # ---- reading a binary record back
    u2 = r.unit(['trick_source/data_products/Log/TrickBinary.cpp'])
    p2 = u2.extract(roots=[r'TrickBinary::get\('], opaque=[])
    SWAP = {2: 'tbs_short', 4: 'tbs_int', 8: 'tbs_long_long'}
    for T, sizes in SIZES.items():
        if T == 3: continue
        for size in sizes:
            for sw in (0, 1):
                lb = f'a recorded {NAME[T]}' + (f' of {size} bytes' if len(sizes) > 1 else '') + (' of the other byte order' if sw else '')
                f = r.flow(p2, 'TrickBinary::get', typed=True, consts={'this.type_': T, 'this.size_': size, 'this.swap_': sw, 'this.time_size_': 8})
                st = r.stores(f, r'\*arg2')
                lab = lb + ' is read back as its value'
                if not st: r.ob(lab, False, ' no value is stored', f.label); continue
                ld = 'this.record_[this.record_offset_]'
                for e in st[-1:]:
                    v = pp(e.val)
                    if T in (10, 11):
                        x = f'{"float" if T == 10 else "double"}({ld})'
                        want = {f'{"tbs_float" if T == 10 else "tbs_double"}({x})' if sw else x}
                    else:
                        ir, w, sg = ('i%d' % (8 * size), size, T == 12) if T in (12, 13) else int_type(T, size) or ('i8', 1, 1)
                        if T == 1: sg = 1
                        x = f'{ir}({ld})'
                        fn = 'tofp' if sg else 'utofp'
                        if sw and w > 1:
                            xs = [f'{n}({x})' for n in ({SWAP[w], 'tbs_long'} if w == 8 else {SWAP[w]})]
                        else: xs = [x]
                        want = set()
                        for y in xs:
                            want |= {f'{fn}({y})', f'{fn}({"sext" if sg else "zext"}({y}))'}
                            if w < 4 and not sg: want |= {f'tofp(zext({y}))', f'tofp(zext({y.replace(x, "sext(" + x + ")")}))'}
                            if w < 4: want |= {f'{a}({b_}({y}))' for a in ('tofp',) + (() if sg else ('utofp',)) for b_ in (('sext',) if sg else ('zext',))}
                    m = re.fullmatch(r'u?tofp\((?:[sz]ext\()?(?:tbs_\w+\()?(?:[sz]ext\()?\w+\(this\.record_\[this\.record_offset_\]\)+|(?:tbs_\w+\()?(?:float|double)\(this\.record_\[this\.record_offset_\]\)+', v)
                    if v in want: r.ob(lab, True)
                    elif m: r.ob(lab, False, f' is {v} instead of {sorted(want)[0]}', e.loc)
                    else: r.undecided(lab, ' ' + v[:120])
    for ts, x in ((8, 'double(*this.record_)'), (4, 'float(*this.record_)')):
        for sw in (0, 1):
            f = r.flow(p2, 'TrickBinary::get', typed=True, consts={'this.type_': 11, 'this.size_': 8, 'this.swap_': sw, 'this.time_size_': ts})
            st = r.stores(f, r'\*arg1')
            v = pp(st[-1].val) if st else ''
            want = f'tbs_{x.split("(")[0]}({x})' if sw else x
            if st and re.fullmatch(r'(tbs_\w+\()?(float|double)\(\*this\.record_\)+', v): r.ob(f'a recorded time of {ts} bytes{" of the other byte order" if sw else ""} is read back as it is', v == want, f' is {v}', r.at(st[-1:]))
            else: r.undecided(f'a recorded time of {ts} bytes is read back as it is', ' ' + v[:100])
    return r.finish('For every recordable type and size: conversion, width, signedness, element offset and bound of the text put in an ASCII record, bytes put in a binary record; order and completeness of columns, header row and binary header.',
                    ['a char column shows the character itself', 'formats set by the user are theirs', 'strings longer than the space left in a record are cut'], floor=120)

RULES = {'C03': c03, 'D03': d03}
