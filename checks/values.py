"""Text forms of values: numbers, booleans, colours, coordinates."""
from eng import *
from build import *
import harness, re
from harness import guard
from ids import getter
import ids
from kmz import S

# numbers to tell apart; each stands for a number with any digits in the same places
RUNS = [str(n) for n in range(10, 40)]
DIG = '0123456789'
C32 = 'kmlbase::Color32'


def isdig(c):
    return 48 <= c <= 57


CT = {'isspace': lambda c: c in (32, 9, 10, 11, 12, 13), 'isdigit': isdig, 'isalpha': lambda c: 65 <= c <= 90 or 97 <= c <= 122,
      'isalnum': lambda c: isdig(c) or 65 <= c <= 90 or 97 <= c <= 122, 'isxdigit': lambda c: isdig(c) or 65 <= c <= 70 or 97 <= c <= 102,
      'isupper': lambda c: 65 <= c <= 90, 'islower': lambda c: 97 <= c <= 122, 'ispunct': lambda c: 33 <= c < 127 and not isdig(c) and not chr(c).isalpha()}
NUM = re.compile(r'[-+]?([0-9]+(\.[0-9]*)?|\.[0-9]+)([eE][-+]?[0-9]+)?')


def vis(t):
    return ''.join(c.replace('\n', '\\n').replace('\t', '\\t').replace('\r', '\\r') for c in t)


class TCl(EngClient):
    """character classes on known characters; string streams with their locale and precision"""
    def __init__(self):
        super().__init__()
        self.unknown = set()
        self.over = []

    def call(self, ip, st, fr, g, this, args, node):
        n, qn = g['n'], g['qn']
        base = qn.split('<')[0].split('::')[-1]
        if base in CT and args and args[0][0] == 'c':
            return [(st, ONE if CT[base](args[0][1] & 0xff) else ZERO)]
        if base in ('tolower', 'toupper') and args and args[0][0] == 'c':
            c = args[0][1]
            if 0 <= c < 128:
                c = ord(chr(c).lower() if base == 'tolower' else chr(c).upper())
            return [(st, ('c', c))]
        if base in ('memcpy', 'memmove', 'strcpy', 'strncpy', 'strcat', 'sprintf') and args:
            r = self.copying(ip, st, fr, g, base, args, node)
            if r is not None:
                return r
        if base in ('strchr', 'strspn', 'strcspn', 'strpbrk', 'memchr', 'strtod', 'strtoul', 'strtol', 'atof', 'strncmp', 'strcmp') and args:
            r = self.cfun(ip, st, fr, base, args, node)
            if r is not None:
                return [(st, r)]
        if qn == 'std::locale::classic':
            return [(st, T('classic'))]
        cls = g.get('cls', '') or ''
        if this is not None and ('stringstream' in cls or 'basic_ios' in cls or 'ios_base' in cls or 'basic_istream' in cls or 'basic_ostream' in cls):
            r = self.stream(ip, st, fr, g, this, args, node)
            if r is not None:
                return r
        return super().call(ip, st, fr, g, this, args, node)

    def cfun(self, ip, st, fr, base, args, node):
        s = self.text_at(ip, st, args[0])
        if s is None:
            return None
        at = lambda i: ip.binop('+', args[0], ('c', i), None, {'k': 'ptr'})
        if base in ('strchr', 'memchr') and args[1][0] == 'c':
            if base == 'memchr':
                if args[2][0] != 'c':
                    return None
                s = s[:args[2][1]]
            i = len(s) if args[1][1] == 0 and base == 'strchr' else s.find(chr(args[1][1] & 255))
            return ZERO if i < 0 else at(i)
        if base in ('strspn', 'strcspn', 'strpbrk'):
            o = self.text_at(ip, st, args[1])
            if o is None:
                return None
            i = 0
            while i < len(s) and (s[i] in o) == (base == 'strspn'):
                i += 1
            if base == 'strpbrk':
                return at(i) if i < len(s) else ZERO
            return ('c', i)
        if base in ('strcmp', 'strncmp'):
            o = self.text_at(ip, st, args[1])
            if o is None:
                return None
            if base == 'strncmp':
                if args[2][0] != 'c':
                    return None
                s, o = s[:args[2][1]], o[:args[2][1]]
            return ('c', (s > o) - (s < o))
        if base in ('strtod', 'atof'):
            k = len(s) - len(s.lstrip(' \t\n\r\f\v'))
            m = NUM.match(s, k)
            if base == 'strtod' and args[1] != ZERO:
                ip.store(st, ip.deref_loc(args[1]), at(m.end() if m else 0), fr, node)
            return T('num', S('double'), S(m.group(0)), T('global')) if m else ZERO
        if base in ('strtoul', 'strtol') and args[2] == ('c', 16):
            m = re.match(r'\s*(0[xX])?([0-9a-fA-F]+)', s)
            if args[1] != ZERO:
                ip.store(st, ip.deref_loc(args[1]), at(m.end() if m else 0), fr, node)
            return ('c', int(m.group(2), 16)) if m else ZERO
        return None

    def copying(self, ip, st, fr, g, base, args, node):
        dst = args[0]
        if dst[0] != 'p':
            return None
        if base in ('memcpy', 'memmove') and args[2][0] == 'c' and args[1][0] == 'p' and args[1][1][0] == 'e':
            n = args[2][1]
            b, i = args[1][1][1], args[1][1][2]
            s = self.text_at(ip, st, args[1])
            if s is not None:
                part = s[:n]
                if any(c in DIG for c in part):
                    self.overflow(ip, st, fr, dst, node, 'a number of any length is copied into a buffer of fixed size')
                return None
        return None

    def text_at(self, ip, st, p):
        if p[0] not in 'ps':
            return None
        b, i = ptr_index(p)
        if b[0] == 's' and i[0] == 'c':
            return b[1][i[1]:]
        return None

    def overflow(self, ip, st, fr, dst, node, what):
        st.trace = st.trace + (('overflow', S(what)),)

    def load(self, ip, st, fr, loc, node):
        if loc[0] == 'e' and len(loc) == 3 and loc[1][0] == 's' and loc[2][0] == 'c' and not 0 <= loc[2][1] <= len(loc[1][1]):
            st.trace = st.trace + (('overflow', S('a character outside the text is read')),)
            return T('outside')
        return super().load(ip, st, fr, loc, node)

    # --- streams
    def stream(self, ip, st, fr, g, this, args, node):
        n = g['n']
        loc = ip.deref_loc(this)
        if n == 'imbue':
            st.mem[('loc', loc)] = models.valarg(ip, st, g, 0, args) if args[0][0] == 'p' else args[0]
            return [(st, T('oldlocale'))]
        if n == 'precision':
            old = st.mem.get(('prec', loc), ('c', 6))
            if args:
                st.mem[('prec', loc)] = args[0]
            return [(st, old)]
        if n == 'operator>>' and len(args) == 1 and args[0][0] == 'p':
            return self.scan(ip, st, fr, g, this, loc, args[0], node)
        if n == 'operator<<' and len(args) == 1:
            t = ip.ty(g['params'][0]['t'])
            v = models.valarg(ip, st, g, 0, args)
            if t.get('k') in ('flt', 'int', 'bool') and not (t.get('k') == 'int' and t.get('w') == 8):
                cur = ip.load(st, loc)
                if cur == UNDEF:
                    cur = S('')
                if t.get('k') == 'int' and v[0] == 'c' and (abs(v[1]) < 1000 or st.mem.get(('loc', loc)) == T('classic')) and ('flags', loc) not in st.mem:
                    ip.store(st, loc, mk_cat(cur, S(str(v[1]))))
                    return [(st, this)]
                ip.store(st, loc, mk_cat(cur, T('text', S(strip_type(t.get('n') or t.get('s') or '?')), v, st.mem.get(('prec', loc), ('c', 6)), st.mem.get(('loc', loc), T('global')), st.mem.get(('flags', loc), ZERO))), fr, node)
                return [(st, this)]
        if n in ('setf', 'unsetf', 'flags') and args:
            st.mem[('flags', loc)] = T('flags', st.mem.get(('flags', loc), ZERO), *[a for a in args])
            return [(st, ZERO)]
        if n in ('operator bool', 'good', 'operator!', 'fail', 'bad', 'eof') and not args:
            f = st.mem.get(('failed', loc))
            if f is not None and n in ('operator bool', 'good'):
                return [(st, ZERO if f == ONE else ONE)]
            if f is not None and n in ('operator!', 'fail'):
                return [(st, f)]
        return None

    def scan(self, ip, st, fr, g, this, loc, out, node):
        t = ip.ty(g['params'][0]['t'])
        k = strip_type(t.get('n') or t.get('s') or '?').replace('&', '').strip()
        cur = ip.load(st, loc)
        lc = st.mem.get(('loc', loc), T('global'))
        pos = st.mem.get(('pos', loc), ZERO)
        o = ip.deref_loc(out)
        if cur[0] == 's':
            if st.mem.get(('failed', loc)) == ONE:
                return [(st, this)]
            s, i = cur[1], pos[1]
            while i < len(s) and s[i] in ' \t\n\r\f\v':
                i += 1
            if i >= len(s):
                st.mem[('failed', loc)] = ONE
                return [(st, this)]
            m = NUM.match(s, i)
            if not m:
                st.mem[('failed', loc)] = ONE
                ip.store(st, o, ZERO, fr, node)
                return [(st, this)]
            st.mem[('pos', loc)] = ('c', m.end())
            st.mem[('failed', loc)] = ZERO
            ip.store(st, o, T('num', S(k), S(m.group(0)), lc), fr, node)
            return [(st, this)]
        ip.store(st, o, T('scanned', S(k), cur, pos, lc, ip.load(st, o)), fr, node)
        st.mem[('pos', loc)] = T('after', pos)
        return [(st, this)]


class NCl(TCl):
    """a text recognised as a number gives the number written there"""
    def store(self, ip, st, fr, loc, val, node):
        if loc[0] == 'e' and val[0] == 'c' and isinstance(val[1], int) and 0 <= val[1] < 256 and chr(val[1]) in DIG and ip.rooted_local(loc):
            self.overflow(ip, st, fr, loc, node, 'a number of any length is written into an array of fixed size')
        return super().store(ip, st, fr, loc, val, node)

    def call(self, ip, st, fr, g, this, args, node):
        if g['qn'] == 'kmlbase::StringToDouble' and len(args) == 2:
            v = models.valarg(ip, st, g, 0, args)
            if v[0] == 'p':
                v = ip.load(st, v[1])
            if v[0] == 's':
                m = re.match(r'-?\.?[0-9]', v[1])
                if not m:
                    return [(st, ZERO)]
                if args[1] != ZERO:
                    ip.store(st, ip.deref_loc(args[1]), T('num', S('double'), S(NUM.match(v[1]).group(0)), T('classic')), fr, node)
                return [(st, ONE)]
        return super().call(ip, st, fr, g, this, args, node)


# --- numbers ---------------------------------------------------------------
def fns(d, qn, pred=lambda ip, f: True):
    ip = Interp(d.db, EngClient())
    return [f for f in d.db.functions.values() if f['qn'].split('<')[0] == qn and 'body' in f and pred(ip, f)]


def numbers(chk, d):
    ip0 = Interp(d.db, EngClient())
    for f in fns(d, 'kmlbase::ToString'):
        t = ip0.ty(f['params'][0]['t'])
        k = t.get('k')
        nm = strip_type(t.get('n') or t.get('s') or '?')
        if k not in ('int', 'bool', 'flt') or k == 'int' and t.get('w') == 8:
            if 'basic_string' in nm:
                ip = EInterp(d.db, TCl())
                st = State()
                rs = ip.run(f, None, [('p', ip.tmp(st, T('x')))] if t.get('ref') else [T('x')], st)
                report(chk, 'V1', 'text of a string', f, rs, lambda q, s: None if deref(ip, s) == T('x') else 'gives %s' % pp(deref(ip, s)))
            continue
        for val in ((ZERO, ONE) if k == 'bool' else (T('x'),)):
            ip = EInterp(d.db, TCl())
            st = State()
            a = [('p', ip.tmp(st, val))] if t.get('ref') else [val]
            rs = ip.run(f, None, a, st)

            def expect(q, s):
                r = deref(ip, s)
                if k == 'bool':
                    return None if r == S('1' if val == ONE else '0') else 'gives %s' % pp(r)
                if not (r[0] == 't' and r[1] == 'text'):
                    return 'gives %s' % pp(r)
                if r[3] != T('x'):
                    return 'the text is that of %s' % pp(r[3])
                if r[5] != T('classic'):
                    return 'the text depends on the locale of the program'
                if r[6] != ZERO:
                    return 'the text is not in the plain format'
                need = {'double': 15, 'float': 8}.get(nm)
                if need and (r[4][0] != 'c' or r[4][1] < need):
                    return 'only %s digits are written' % pp(r[4])
                return None
            report(chk, 'V1', 'text of a %s%s' % (nm, '' if k != 'bool' else ' ' + pp(val)), f, rs, expect)
    for f in fns(d, 'kmlbase::FromString'):
        t = ip0.ty(f['params'][1]['t'])
        nm = strip_type(t.get('p') or '?')
        for case in ('text', 'null', 'empty'):
            ip = EInterp(d.db, TCl())
            st = State()
            txt = S('') if case == 'empty' else T('txt')
            o = ip.tmp(st, T('old'))
            if nm == 'bool':
                continue
            rs = ip.run(f, None, [('p', ip.tmp(st, txt)), ZERO if case == 'null' else ('p', o)], st)

            def expect(q, s):
                v = ip.load(s, o)
                if case == 'null':
                    return None if v == T('old') else 'writes to a place not given'
                if case == 'empty':
                    if nm == 'int' or 'string' in nm:
                        w = ZERO if nm == 'int' else S('')
                        return None if v == w else 'an empty text gives %s' % pp(v)
                    return None if v in (T('old'), ZERO) else 'an empty text gives %s' % pp(v)
                if 'string' in nm:
                    return None if v == txt else 'gives %s' % pp(v)
                if v[0] == 't' and v[1] == 'scanned':
                    if v[3] != txt or v[4] != ZERO:
                        return 'reads %s' % pp(v[3])
                    if v[2] != S(nm):
                        return 'is read as %s' % pp(v[2])
                    if v[5] != T('classic'):
                        return 'the number read depends on the locale of the program'
                    return None
                if nm == 'int' and v == ZERO:
                    return None if q(mk_eq(mk_size(txt), ZERO)) or not q(mk_nz(mk_size(txt))) else 'gives 0'
                return 'gives %s' % pp(v)
            report(chk, 'V1', 'reading a %s%s' % ('string' if 'string' in nm else nm, '' if case == 'text' else ', ' + ('no place to store it' if case == 'null' else 'empty text')), f, rs, expect)
        if nm == 'bool':
            for t_ in ('1', '0', 'true', 'false', ' 1', ' true', '\n\ttrue', '\n0', 'true ', '1\n', '', ' ', '2', 'tru', 'yes', 'f', ' false '):
                ip = EInterp(d.db, TCl())
                st = State()
                o = ip.tmp(st, T('old'))
                rs = ip.run(f, None, [('p', ip.tmp(st, S(t_))), ('p', o)], st)
                want = t_.strip() in ('1', 'true')

                def expect(q, s):
                    v = ip.load(s, o)
                    if v == T('old'):
                        return 'the value is left as it was'
                    return None if q(mk_nz(v)) == want else '"%s" is read as %s' % (vis(t_), pp(v))
                report(chk, 'V1', 'reading a bool from "%s"' % vis(t_), f, rs, expect)
    # StringToDouble, IsDecimalDoubleString
    R = RUNS[0]
    texts = [R, '-' + R, '.' + R, '-.' + R, R + '.' + RUNS[1], R + 'e-' + RUNS[1], '-' + R + '.' + RUNS[1] + 'E' + RUNS[2], '', '-', '.', '-.', 'x', '-x', '.x', '--' + R, ' ', 'true', '5', '-0', '.9', '#' + R]
    for f in fns(d, 'kmlbase::IsDecimalDoubleString'):
        for t_ in texts:
            ip = EInterp(d.db, TCl())
            st = State()
            rs = ip.run(f, None, [('p', ip.tmp(st, S(t_)))], st)
            want = bool(re.match(r'-?\.?[0-9]', t_))
            report(chk, 'V1', 'is "%s" a number' % vis(t_), f, rs, lambda q, s: None if q(mk_nz(s.mem[('ret',)])) == want else 'says %s' % ('no' if want else 'yes'))
    for f in fns(d, 'kmlbase::StringToDouble'):
        isc = ip0.ty(f['params'][0]['t']).get('k') == 'ptr'
        for t_ in texts:
            for null in (0, 1):
                ip = EInterp(d.db, TCl())
                st = State()
                o = ip.tmp(st, T('old'))
                a = ('p', ('e', S(t_), ZERO)) if isc else ('p', ip.tmp(st, S(t_)))
                if isc:
                    a = S(t_)
                rs = ip.run(f, None, [a, ZERO if null else ('p', o)], st)
                want = bool(re.match(r'-?\.?[0-9]', t_))

                def expect(q, s):
                    if q(mk_nz(s.mem[('ret',)])) != want:
                        return '%s' % ('is not recognised' if want else 'is taken for a number')
                    v = ip.load(s, o)
                    if not want or null:
                        return None if v == T('old') else 'writes a number although there is none'
                    if v[:2] == ('t', 'num') and v[3] == S(NUM.match(t_).group(0)) and v[2] == S('double'):
                        return None if v[4] == T('classic') else 'depends on the locale of the program'
                    return 'is read as %s' % pp(v)
                report(chk, 'V1', 'number in "%s"%s%s' % (vis(t_), ' (C string)' if isc else '', ', not stored' if null else ''), f, rs, expect)


def odd(ip, rs):
    """what of the analysed code is beyond the models: then nothing is decided"""
    for x in list(ip.unmodelled) + list(ip.opaque_called):
        if 'allocator' not in x and 'stream' not in x and 'ios' not in x:
            return 'goes through %s' % x
    for s, v in rs:
        for k in s.facts:
            if mentions(k, lambda t: isinstance(t, tuple) and t[:2] in (('t', 'call'), ('t', 'init')) and t not in (COL,)):
                return 'depends on %s' % pp(k)[:120]
    return None


def report(chk, rule, key, f, rs, expect, ip=None):
    for s, v in rs:
        for e in s.trace:
            if e[0] == 'overflow':
                chk.bad(rule, key, where(f), e[1][1])
                return
    b = odd(ip or Q.ip, rs)
    if b:
        chk.unk(rule, key, b)
    else:
        ids.report(chk, rule, key, f, rs, expect)


def deref(ip, s):
    r = s.mem[('ret',)]
    return ip.load(s, r[1]) if r[0] == 'p' else r


# --- colours -----------------------------------------------------------------
def bits(t, n=32):
    """the n low bits of a term: list of 0, 1 or (atom, i)"""
    if t[0] == 'c':
        return [(t[1] >> i) & 1 for i in range(n)]
    if t[0] == 't':
        op = t[1]
        if op == 'trunc':
            w = t[3][1]
            return [b if i < w else 0 for i, b in enumerate(bits(t[2], n))]
        if op in ('conv', 'zext', 'sext'):
            return bits(t[2], n)
        if op in ('&', '|', '^', '+'):
            a, b = bits(t[2], n), bits(t[3], n)
            r = []
            for x, y in zip(a, b):
                if op == '&':
                    r.append(0 if x == 0 or y == 0 else x if y == 1 else y if x == 1 else x if x == y else ('&', x, y))
                elif x == 0 or y == 0:
                    r.append(y if x == 0 else x)
                elif op == '|':
                    r.append(1 if x == 1 or y == 1 else x if x == y else ('|', x, y))
                else:
                    raise AnalysisBroken('carry in a colour')
            return r
        if op in ('<<', '>>') and t[3][0] == 'c':
            k = t[3][1]
            a = bits(t[2], max(n, 32) if op == '>>' else n)
            return ([0] * k + a)[:n] if op == '<<' else (a[k:] + [0] * k)[:n]
        if op == '*' and (t[2][0] == 'c' or t[3][0] == 'c'):
            c, x = (t[2], t[3]) if t[2][0] == 'c' else (t[3], t[2])
            if c[1] > 0 and c[1] & (c[1] - 1) == 0:
                return bits(T('<<', x, ('c', c[1].bit_length() - 1)), n)
        if op == '/' and t[3][0] == 'c' and t[3][1] > 0 and t[3][1] & (t[3][1] - 1) == 0:
            return bits(T('>>', t[2], ('c', t[3][1].bit_length() - 1)), n)
        if op == '%' and t[3][0] == 'c' and t[3][1] > 0 and t[3][1] & (t[3][1] - 1) == 0:
            return bits(T('&', t[2], ('c', t[3][1] - 1)), n)
    return [(t, i) for i in range(n)]


COL = T('col')
LANE = {'red': 0, 'green': 8, 'blue': 16, 'alpha': 24}


def byte(t, lo):
    return bits(t)[lo:lo + 8]


def atom(t, lo=0, n=8):
    return [(t, i) for i in range(lo, lo + n)]


def colour(ip, st, v=COL):
    o = obj(st, 'C', C32)
    fl = [k for k, f in ip.all_fields(C32)]
    if len(fl) != 1:
        raise AnalysisBroken('a colour has %d fields' % len(fl))
    loc = ('m', o, fl[0])
    st.mem[loc] = v
    return o, loc


def colours(chk, d):
    def cands(name, np, pred=lambda ip, f: True):
        ip = Interp(d.db, EngClient())
        r = [d.db.functions[m] for m in d.db.records[C32]['methods'] if d.db.functions[m]['n'] == name and len(d.db.functions[m]['params']) == np and 'body' in d.db.functions[m] and pred(ip, d.db.functions[m])]
        if len(r) != 1:
            raise AnalysisBroken('Color32::%s: %d candidates' % (name, len(r)))
        return r[0]

    def isstr(ip, f):
        return 'basic_string' in str(ip.ty(f['params'][0]['t']).get('n', ''))
    for ch, lo in LANE.items():
        ip = EInterp(d.db, TCl())
        st = State()
        o, loc = colour(ip, st)
        f = cands('get_' + ch, 0)
        report(chk, 'V2', 'get_' + ch, f, ip.run(f, o, [], st), lambda q, s: None if bits(s.mem[('ret',)]) == atom(COL, lo) + [0] * 24 else 'gives other bits of the colour')
        f = cands('set_' + ch, 1)
        st = State()
        o, loc = colour(ip, st)
        want = atom(COL, 0, 32)
        want[lo:lo + 8] = atom(T('v'))
        report(chk, 'V2', 'set_' + ch, f, ip.run(f, o, [T('trunc', T('v'), ('c', 8))], st), lambda q, s: None if bits(ip.load(s, loc)) == want else 'does not set exactly that channel')
    swap = atom(COL, 0, 32)
    swap[0:8], swap[16:24] = swap[16:24], swap[0:8]
    for name, w in (('get_color_abgr', atom(COL, 0, 32)), ('get_color_argb', swap)):
        ip = EInterp(d.db, TCl())
        st = State()
        o, loc = colour(ip, st)
        f = cands(name, 0)
        report(chk, 'V2', name, f, ip.run(f, o, [], st), lambda q, s: None if bits(s.mem[('ret',)]) == w else 'gives other bits')
    for name, w in (('set_color_abgr', atom(T('v'), 0, 32)), ('set_color_argb', None)):
        ip = EInterp(d.db, TCl())
        st = State()
        o, loc = colour(ip, st)
        f = cands(name, 1, lambda ip, f: not isstr(ip, f))
        if w is None:
            w = atom(T('v'), 0, 32)
            w[0:8], w[16:24] = w[16:24], w[0:8]
        report(chk, 'V2', name, f, ip.run(f, o, [T('v')], st), lambda q, s: None if bits(ip.load(s, loc)) == w else 'sets other bits')
    # four channels
    ip = EInterp(d.db, TCl())
    st = State()
    o, loc = colour(ip, st)
    f = cands('set_color_abgr', 4)
    ch4 = [T('trunc', T(x), ('c', 8)) for x in 'abgr']
    w = atom(T('r')) + atom(T('g')) + atom(T('b')) + atom(T('a'))
    report(chk, 'V2', 'set_color_abgr of four channels', f, ip.run(f, o, ch4, st), lambda q, s: None if bits(ip.load(s, loc)) == w else 'a channel gets another value')
    f = ctor(d, C32, 4)
    st = State()
    o, loc = colour(ip, st)
    report(chk, 'V2', 'a colour of four channels', f, ip.run(f, o, ch4, st), lambda q, s: None if bits(ip.load(s, loc)) == w else 'a channel gets another value')
    # texts of a colour
    for name, order in (('to_string_abgr', (24, 16, 8, 0)), ('to_string_argb', (24, 0, 8, 16))):
        f = cands(name, 0)
        vals = [0, 0xffffffff, 0x01234567, 0x89abcdef, 0x12fe34dc, 0xa0b0c0d0] + [n << (4 * p) for p in range(8) for n in range(16)]
        for v in vals:
            ip = EInterp(d.db, TCl())
            st = State()
            o, loc = colour(ip, st, ('c', v))
            rs = ip.run(f, o, [], st)
            w = ''.join('%02x' % ((v >> l) & 0xff) for l in order)

            def expect(q, s):
                r = ctext(ip, s)
                return None if r == w else 'the text of %08x is %s instead of %s' % (v, r, w)
            report(chk, 'V2', '%s of %08x' % (name, v), f, rs, expect)
    # reading
    f = cands('set_color_abgr', 1, isstr)
    texts = ['%s%s' % (p, t) for p in ('', '#', ' ', '\n\t ', ' #') for t in ('', '1', 'fe', '80ff', '12345', '123456', '1234567', '01234567', '89abcdef', '89ABCDEF', 'ff00Ff00 ', '123456789')]
    texts += ['0' * p + c + '0' * (7 - p) for p in range(8) for c in '0123456789abcdefABCDEF'] + ['7g000000', '7G000000', 'zz', '12#4']
    for t_ in texts:
        ip = EInterp(d.db, TCl())
        st = State()
        o, loc = colour(ip, st)
        rs = ip.run(f, o, [('p', ip.tmp(st, S(t_)))], st)
        b = t_.lstrip(' \n\t')
        b = b[1:] if b[:1] == '#' else b
        w = 0
        for c in b[:8]:
            w = w * 16 + (int(c, 16) if c in '0123456789abcdefABCDEF' else 0)

        def expect(q, s):
            v = ip.load(s, loc)
            if ' ' in b[:8].strip() or b[:8].endswith(' ') and len(b) <= 8:
                return None
            bb = bits(v)
            if bb == bits(('c', w)):
                return None
            return 'is read as %s instead of %08x' % ('%08x' % sum(x << i for i, x in enumerate(bb)) if all(x in (0, 1) for x in bb) else 'something unknown', w)
        report(chk, 'V2', 'colour "%s"' % vis(t_), f, rs, expect)
    # comparing
    for f in [d.db.functions[m] for m in d.db.records[C32]['methods'] if d.db.functions[m].get('op') in ('==', '!=', '<', '>') and 'body' in d.db.functions[m]]:
        ip = EInterp(d.db, TCl())
        st = State()
        o, loc = colour(ip, st)
        o2 = obj(st, 'C2', C32)
        st.mem[('m', o2, loc[2])] = T('col2')
        rs = ip.run(f, o, [o2], st)
        op = f['op']

        def expect(q, s):
            a, b = COL, T('col2')
            r = q(mk_nz(s.mem[('ret',)]))
            w = {'==': lambda: q(mk_eq(a, b)), '!=': lambda: not q(mk_eq(a, b)), '<': lambda: q(mk_lt(a, b)), '>': lambda: q(mk_lt(b, a))}[op]()
            return None if r == w else 'compares wrongly'
        report(chk, 'V2', 'operator' + op, f, rs, expect)


def ctext(ip, s):
    """the text returned"""
    r = s.mem[('ret',)]
    if r[0] == 's':
        return r[1]
    if r[0] == 'p':
        l = r[1]
        if l[0] == 'e':
            arr, i = ('p', l[1]) if l[1][0] != 'p' else l[1], l[2]
        else:
            arr, i = r, ZERO
        out = ''
        while len(out) < 100:
            v = ip.load(s, ('e', arr, i))
            if v == ZERO:
                return out
            if v[0] != 'c':
                return out + '?'
            out += chr(v[1] & 0xff)
            i = mk_add(i, ONE)
    return pp(r)


# --- coordinates ---------------------------------------------------------------
def vecval(v):
    """(lon, lat, alt or None) of a Vec3 value"""
    if v[0] == 'rec':
        m = {k.split('::')[-1]: x for k, x in v[2]}
        return m['lon_'], m['lat_'], m['alt_'] if m['has_altitude_'] != ZERO else None
    return None


class Vec:
    def __init__(self, d, ip):
        self.ip = ip

    def of(self, s, v):
        """via the getters of the class"""
        o = obj(s, 'vec', 'kmlbase::Vec3')
        if v[0] == 'rec':
            for k, x in v[2]:
                s.mem[('m', o, k)] = x
        elif v[0] in ('o',) or v[:2] == ('t', 'OBJ'):
            o = v
        else:
            raise AnalysisBroken('tuple %s' % pp(v)[:100])
        g = lambda n: getter(self.ip, s, 'kmlbase::Vec3', n, o)
        return g('get_longitude'), g('get_latitude'), g('get_altitude') if g('has_altitude') != ZERO else None


def coord_texts():
    """(text, expected tuples); numbers are schematic runs"""
    it = lambda: iter(RUNS)

    def num(style, r):
        n = next(r)
        return {'i': n, '-': '-' + n, '.': n + '.' + next(r) if style == '.' else '', 'd': '.' + n, 'e': n + 'E-' + n, 'l': '0' + n, '-.': '-' + n + '.' + n}[style]
    out = []

    def make(tuples, comma, sep, lead, trail):
        r = it()
        txt, exp = lead, []
        for i, tp in enumerate(tuples):
            ns = [num(s_, r) for s_ in tp]
            txt += (sep if i else '') + comma.join(ns)
            exp.append(ns)
        return txt + trail, exp
    forms = [('i', '-'), ('.', '.'), ('i', '-', '.'), ('-', 'e', 'i')]
    for a in forms + [('d', 'd'), ('l', '-.', 'd'), ('-.', '-.', '-.'), ('e', 'e')]:
        for comma in (',', ', ', ' ,', ' , ', ',\n', '\t,\t', ',  ', '\n,\n'):
            for lead, trail in (('', ''), ('\n  ', '\n'), ('\t', ' '), (' ', '\r\n  ')):
                out.append(make([a], comma, '', lead, trail))
    for a in forms:
        for b in forms:
            for sep in (' ', '\n', '\t', '\r\n', '  ', '\n    ', '\t\t', ' \n'):
                for comma in (',', ', '):
                    out.append(make([a, b], comma, sep, '', ''))
                out.append(make([a, b], ' , ', sep, '\n', '\n'))
    for a, b, c in itertools.product(forms[:3], repeat=3):
        for sep in (' ', '\n', '\n  '):
            out.append(make([a, b, c], ',', sep, '', sep))
    return out


def coordinates(chk, d):
    CO = 'kmldom::Coordinates'
    f = [d.db.functions[m] for m in d.db.records[CO]['methods'] if d.db.functions[m]['n'] == 'Parse' and 'body' in d.db.functions[m]]
    if len(f) != 1:
        raise AnalysisBroken('Coordinates::Parse not found')
    f = f[0]

    def one(c, item):
        txt, exp = item
        ip = EInterp(d.db, NCl())
        ip.unroll = 400
        st, o = value_object(d, ip, State(), CO, 'CO')
        fl = [k for k, x in ip.all_fields(CO) if 'vector<kmlbase::Vec3' in ip.ty(x['t']).get('n', '')]
        if len(fl) != 1:
            raise AnalysisBroken('Coordinates has %d lists of tuples' % len(fl))
        key = 'coordinates "%s"' % vis(txt)
        try:
            rs = ip.run(f, o, [('p', ip.tmp(st, S(txt)))], st)
        except Budget:
            c.bad('V3', key, where(f), 'reading does not end')
            return

        def expect(q, s):
            v = ip.load(s, ('m', o, fl[0]))
            if v[0] != 'vec':
                return 'reading does not end'
            got = [Vec(d, ip).of(s, x) for x in v[1]]
            if exp is None:
                for g in got:
                    for x in g:
                        if x is not None and mentions(x, lambda t: t == UNDEF or t[:2] == ('t', 'undef')):
                            return 'a tuple is made of an uninitialised value'
                return None
            want = [[T('num', S('double'), S(n), T('classic')) for n in tp] for tp in exp]
            if len(got) != len(want):
                return '%d tuples are read instead of %d' % (len(got), len(want))
            for g, w in zip(got, want):
                w3 = (w[0], w[1], w[2] if len(w) > 2 else None)
                if g != w3:
                    return 'a tuple is read as %s' % ', '.join(vis(x[3][1]) if x and x[:2] == ('t', 'num') else pp(x) if x else 'none' for x in g)
            return None
        report(c, 'V3', key, f, rs, expect)
    items = coord_texts()
    R = RUNS
    junk = ['', ' ', '\n', 'abc', ',', ',,,', '.', '. ', '\t\n', 'a,b c,d', '+', 'e', '*']
    items += [(t, []) for t in junk]
    items += [(t, None) for t in ('-', '--', '- ', '-,', R[0], R[0] + ',', R[0] + ' ', R[0] + ',x', 'x,' + R[0], R[0] + '*' + R[1] + ',' + R[2], R[0] + ',-', '-,-', R[0] + ',,' + R[1], '-\n-')]
    # three numbers at a time when only commas separate them
    items += [(','.join(R[:9]), [list(R[0:3]), list(R[3:6]), list(R[6:9])])]
    harness.parallel(chk, items, one)
    # the element reads its own text, once
    g = [d.db.functions[m] for m in d.db.records[CO]['methods'] if d.db.functions[m]['n'] == 'AddElement' and 'body' in d.db.functions[m]][0]
    cl = EngClient()
    cl.events = {CO + '::Parse': True}
    ip = EInterp(d.db, cl)
    st, o = value_object(d, ip, State(), CO, 'CO')
    for k, x in ip.all_fields(CO):
        if k.endswith('char_data_'):
            st.mem[('m', o, k)] = T('TEXT')
    rs = ip.run(g, o, [('p', ip.tmp(st, o))], st)
    report(chk, 'V3', 'Coordinates reads its own text', g, rs, lambda q, s: None if [e for e in s.trace if e[0] == 'Parse'] == [('Parse', o, T('TEXT'))] else 'it reads %s' % pp(tuple(s.trace)))


def tracks(chk, d):
    GT = 'kmldom::GxTrack'
    f = [d.db.functions[m] for m in d.db.records[GT]['methods'] if d.db.functions[m]['n'] == 'Parse' and 'body' in d.db.functions[m]]
    if len(f) != 1:
        raise AnalysisBroken('GxTrack::Parse not found')
    f = f[0]
    R = RUNS
    items = []
    for n in (0, 1, 2, 3, 4):
        for sep in (' ', '  ', '\n', '\t', ' \n '):
            for lead, trail in (('', ''), (' ', ' '), ('\n  ', '\n')):
                for sg in ('', '-'):
                    ns = [sg + R[i] + ('.' + R[i + 5] if i == 1 else '') for i in range(n)]
                    items.append((lead + sep.join(ns) + trail, ns))

    def one(c, item):
        txt, ns = item
        ip = EInterp(d.db, NCl())
        st = State()
        o = ip.tmp(st, ('vec', ()))
        rs = ip.run(f, None if f.get('static') else obj(st, 'TRACK', GT), [('p', ip.tmp(st, S(txt))), ('p', o)], st)
        key = 'track values "%s"' % vis(txt)

        def expect(q, s):
            v = ip.load(s, o)
            if v[0] != 'vec' or len(v[1]) != 1:
                return 'gives %s instead of one tuple' % (len(v[1]) if v[0] == 'vec' else 'an unknown list')
            got = Vec(d, ip).of(s, v[1][0])
            for i in range(3):
                w = S(ns[i]) if i < len(ns) else None
                g = got[i]
                if w is None:
                    if g not in (None, ZERO, ('c', 0.0)):
                        return 'value %d is %s although it is not given' % (i + 1, pp(g))
                elif g is None or g[:2] != ('t', 'num') or g[3] != w:
                    return 'value %d is %s' % (i + 1, pp(g) if g else 'missing')
                elif g[4] != T('classic'):
                    return 'depends on the locale of the program'
            return None
        report(c, 'V4', key, f, rs, expect)
    harness.parallel(chk, items, one)
    ip = EInterp(d.db, NCl())
    st = State()
    report(chk, 'V4', 'track values, no place to store them', f, ip.run(f, None if f.get('static') else obj(st, 'TRACK', GT), [('p', ip.tmp(st, S('1 2 3'))), ZERO], st), lambda q, s: None)


def run(chk, db):
    d = Dom(db)
    d.classes()
    chk.rule('V1', 'numbers and booleans are written and read independently of the locale, with enough digits, each text as the value it denotes')
    chk.rule('V2', 'the channels of a colour are independent; its texts are eight hexadecimal digits in the documented order and read back as the same colour, within the bounds of the text')
    chk.rule('V3', 'a coordinate list is read tuple by tuple as written, whatever white space separates it; reading ends on every text, never copies a number into a fixed buffer and never stores an uninitialised value')
    chk.rule('V4', 'the values of a track point are read in order, whatever white space separates them')
    for g in (numbers, colours, coordinates, tracks):
        guard(chk, g.__name__, g, chk, d)
    return {}
