"""Texts, attribute lists, files and dates: the helpers everything else is built on."""
from eng import *
from build import *
import harness, itertools, re, datetime
from harness import guard
from ids import getter
from kmz import S, method
from values import fns, report, odd
from imports import ICl, strs
from absint import ptr_index

AT = 'kmlbase::Attributes'


def run1(d, f, args, this=None, cl=None):
    ip = EInterp(d.db, cl or ICl())
    st = State()
    a = []
    for p, x in zip(f['params'], args):
        t = ip.ty(p['t'])
        a.append(('p', ip.tmp(st, x)) if t.get('ref') else x)
    return ip, ip.run(f, this, a, st), st


def strings(chk, d):
    texts = [''.join(t) for n in range(6) for t in itertools.product('a|', repeat=n)] + ['xx--yy', '--', '---', 'x--', '--x--', 'a-b--c', 'ab', 'aab', 'aaaaa', 'x|y|']
    f = fns(d, 'kmlbase::SplitStringUsing')[0]

    def split(c, it):
        t, sep = it
        ip = EInterp(d.db, ICl())
        st = State()
        out = ip.tmp(st, ('vec', (S('old'),)))
        rs = ip.run(f, None, [('p', ip.tmp(st, S(t))), ('p', ip.tmp(st, S(sep))), ('p', out)], st)
        want = ['old'] + (t.split(sep) if sep else [t])

        def expect(q, s):
            g = strs(ip.load(s, out))
            if g is None:
                return 'the parts are unknown'
            return None if g == want else 'gives %s instead of %s' % (g, want)
        report(c, 'T1', 'splitting %r at %r' % (t, sep), f, rs, expect, ip)
    harness.parallel(chk, [(t, s) for t in texts for s in ('|', '--', 'a', 'aa', 'ab', '')], split)

    def simple(fn, cases, want):
        f = [g for g in fns(d, 'kmlbase::' + fn) if len(g['params']) == len(cases[0])][0]
        for cs in cases:
            ip, rs, _ = run1(d, f, [S(x) for x in cs])
            w = want(*cs)

            def expect(q, s):
                r = s.mem[('ret',)]
                if isinstance(w, bool):
                    return None if q(mk_nz(r)) == w else 'says %s' % ('no' if w else 'yes')
                return None if r == ('c', w) else 'gives %s instead of %s' % (pp(r), w)
            report(chk, 'T1', '%s(%s)' % (fn, ', '.join(map(repr, cs))), f, rs, expect, ip)
    ab = [''.join(t) for n in range(4) for t in itertools.product('ab', repeat=n)]
    simple('StringEndsWith', [(a, b) for a in ab for b in ab], lambda a, b: bool(a and b and a.endswith(b)))
    ca = ['', 'a', 'A', 'b', 'ab', 'aB', 'AB', 'Ab', 'abc', 'a1_', 'A1_', 'a[', 'a{', 'A@', 'a`', 'Name', 'nAME', 'name ']
    simple('StringCaseEqual', [(a, b) for a in ca for b in ca], lambda a, b: a.lower() == b.lower())
    ws = [''.join(t) for n in range(4) for t in itertools.product(' \tx\n', repeat=n)] + ['\r\v\fx', '  x y ']
    simple('SkipLeadingWhitespaceString', [(t,) for t in ws], lambda t: len(t) - len(t.lstrip(' \t\n\r\f\v')))


def attr_lists(chk, d):
    FLD = [k for k, x in EInterp(d.db, ICl()).all_fields(AT) if 'map<' in EInterp(d.db, ICl()).ty(x['t']).get('n', '')]
    if len(FLD) != 1:
        raise AnalysisBroken('the attributes are kept in %d maps' % len(FLD))
    FLD = FLD[0]

    def content(ip, s, o):
        if o[0] == 'p':
            o = ip.load(s, o[1])
        m = models.map_items(ip.load(s, ('m', o, FLD)))
        if m is None:
            raise AnalysisBroken('the attributes are unknown')
        return {k[1]: v for k, v in m}

    def make(ip, st, name, items):
        o = obj(st, name, AT)
        st.mem[('exact', o)] = ONE
        st = single(ip.run(ctor(d, AT, 0), o, [], st), 'Attributes')[0]
        sv = [g for g in fns(d, AT + '::SetString') if len(g['params']) == 2][0]
        for k, v in items:
            st = single(ip.run(sv, o, [('p', ip.tmp(st, S(k))), ('p', ip.tmp(st, v))], st), 'SetString')[0]
        return st, o
    V = lambda k, n='v': T(n, S(k))
    sets = [(), ('a',), ('a', 'b'), ('b', 'a', 'c'), ('p:x', 'a'), ('p:x', 'p:y', 'q'), ('p:', 'px'), ('p', 'p:x', 'pp:x', 'P:x'), ('x:p', 'p:p:z', 'xp:a')]
    # creation from lists
    cr = [g for g in fns(d, AT + '::Create') if len(g['params']) == 1]
    for g in cr:
        vec = 'vector' in EInterp(d.db, ICl()).ty(g['params'][0]['t']).get('n', '')
        for lst in ([], ['a', '1'], ['a', '1', 'b', '2'], ['a', '1', 'a', '2'], ['a', ''], ['a', '1', 'b'], ['a'], ['b', '2', 'a', '1', 'c', '3'], ['x:y', 'z', 'x', 'w', 'odd']):
            ip = EInterp(d.db, ICl())
            st = State()
            if vec:
                arg = ('p', ip.tmp(st, ('vec', tuple(S(x) for x in lst))))
            else:
                b = ip.tmp(st, ZERO)
                for i, x in enumerate(lst):
                    st.mem[('e', ('p', b), ('c', i))] = S(x)
                st.mem[('e', ('p', b), ('c', len(lst)))] = ZERO
                arg = ('p', ('e', ('p', b), ZERO))
            rs = ip.run(g, None, [arg], st)
            want = {k: S(v) for k, v in zip(lst[::2], lst[1::2])}

            def expect(q, s):
                r = s.mem[('ret',)]
                if r == ZERO:
                    return 'no attributes are created'
                c = content(ip, s, r)
                return None if c == want else 'the attributes are %s' % (None if c is None else {k: pp(v) for k, v in c.items()})
            report(chk, 'T2', 'attributes of %s %s' % ('vector' if vec else 'array', lst), g, rs, expect, ip)
    M = lambda n, np: [g for g in fns(d, AT + '::' + n) if len(g['params']) == np]

    def case(c, it):
        kind, items, arg = it
        ip = EInterp(d.db, ICl())
        st, o = make(ip, State(), 'A', [(k, V(k)) for k in items])
        before = {k: V(k) for k in items}
        if kind in ('FindValue', 'GetString', 'CutValue', 'GetValue'):
            g = [f for f in M(kind, 2) if kind not in ('CutValue', 'GetValue') or 'string' in ip.ty(f['params'][1]['t']).get('s', '')]
            if not g:
                return
            g = g[0]
            key, null = arg
            out = ip.tmp(st, T('old'))
            rs = ip.run(g, o, [('p', ip.tmp(st, S(key))), ZERO if null else ('p', out)], st)

            def expect(q, s):
                r = q(mk_nz(s.mem[('ret',)]))
                if r != (key in before):
                    return 'says %s' % ('there is none' if key in before else 'there is one')
                v = ip.load(s, out)
                if v != (V(key) if r and not null else T('old')):
                    return 'the value is %s' % pp(v)
                after = {k: x for k, x in before.items() if k != key} if kind == 'CutValue' else before
                return None if content(ip, s, o) == after else 'the attributes afterwards are wrong'
        elif kind == 'SetString':
            g = M(kind, 2)[0]
            rs = ip.run(g, o, [('p', ip.tmp(st, S(arg))), ('p', ip.tmp(st, V(arg, 'n')))], st)
            expect = lambda q, s: None if content(ip, s, o) == dict(before, **{arg: V(arg, 'n')}) else 'the attributes afterwards are wrong'
        elif kind == 'GetAttrNames':
            g = M(kind, 1)[0]
            out = ip.tmp(st, ('vec', ()))
            rs = ip.run(g, o, [('p', out)], st)
            expect = lambda q, s: None if sorted(strs(ip.load(s, out)) or ['?'] if items else strs(ip.load(s, out))) == sorted(items) else 'the names are %s' % pp(ip.load(s, out))
        elif kind == 'GetSize':
            g = M(kind, 0)[0]
            rs = ip.run(g, o, [], st)
            expect = lambda q, s: None if s.mem[('ret',)] == ('c', len(items)) else 'the number is %s' % pp(s.mem[('ret',)])
        elif kind == 'Clone':
            g = M(kind, 0)[0]
            rs = ip.run(g, o, [], st)

            def expect(q, s):
                r = s.mem[('ret',)]
                if r == o or r == ZERO:
                    return 'gives no copy'
                return None if content(ip, s, r) == before and content(ip, s, o) == before else 'the copy differs'
        elif kind == 'MergeAttributes':
            g = M(kind, 1)[0]
            st, o2 = make(ip, st, 'B', [(k, V(k, 'n')) for k in arg])
            rs = ip.run(g, o, [o2], st)

            def expect(q, s):
                if content(ip, s, o2) != {k: V(k, 'n') for k in arg}:
                    return 'the attributes merged in are changed'
                w = dict(before)
                w.update({k: V(k, 'n') for k in arg})
                return None if content(ip, s, o) == w else 'the attributes afterwards are wrong'
        elif kind == 'SplitByPrefix':
            g = M(kind, 1)[0]
            rs = ip.run(g, o, [('p', ip.tmp(st, S(arg)))], st)

            def expect(q, s):
                r = s.mem[('ret',)]
                hit = {k[len(arg) + 1:]: V(k) for k in items if k.startswith(arg + ':')}
                rest = {k: V(k) for k in items if not k.startswith(arg + ':')}
                if content(ip, s, o) != rest:
                    return 'the remaining attributes are wrong'
                if not hit:
                    return None if r == ZERO else 'gives attributes without the prefix'
                return None if r != ZERO and content(ip, s, r) == hit else 'the attributes with the prefix are wrong'
        elif kind == 'FindKey':
            g = M(kind, 2)[0]
            out = ip.tmp(st, S('old'))
            vals = dict(arg[1])
            st, o = make(ip, st, 'K', [(k, S(v)) for k, v in arg[1]])
            rs = ip.run(g, o, [('p', ip.tmp(st, S(arg[0]))), ('p', out)], st)
            hit = [k for k in vals if vals[k] == arg[0]]

            def expect(q, s):
                r = q(mk_nz(s.mem[('ret',)]))
                v = ip.load(s, out)
                if not hit:
                    return None if not r and v == S('old') else 'finds a name'
                return None if r and v in [S(k) for k in hit] else 'does not find the name'
        elif kind == 'Serialize':
            g = M(kind, 1)[0]
            esc = lambda t: t.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;').replace("'", '&apos;').replace('"', '&quot;').replace('\r', '&#13;').replace('\n', '&#10;').replace('\t', '&#9;')
            st, o = make(ip, st, 'K', [(k, S(v)) for k, v in arg])
            out = ip.tmp(st, S('<x'))
            rs = ip.run(g, o, [('p', out)], st)

            def expect(q, s):
                v = ip.load(s, out)
                if v[0] != 's':
                    return 'the text is unknown'
                parts = sorted(' %s="%s"' % (k, esc(x)) for k, x in arg)
                m = re.findall(r' [^ =]+="[^"]*"', v[1][2:])
                return None if v[1].startswith('<x') and ''.join(m) == v[1][2:] and sorted(m) == parts else 'the text is %r' % v[1]
        report(c, 'T2', '%s of %s%s' % (kind, ', '.join(items) or 'nothing', '' if arg is None else ' (%s)' % (arg,)), g, rs, expect, ip)
    items = []
    for s in sets:
        for k in sorted(set(s) | {'a', 'z', 'p'}):
            for n in (0, 1):
                items += [(kd, s, (k, n)) for kd in ('FindValue', 'GetString', 'CutValue', 'GetValue')]
            items.append(('SetString', s, k))
        items += [(kd, s, None) for kd in ('GetAttrNames', 'GetSize', 'Clone')]
        items += [('SplitByPrefix', s, p) for p in ('p', 'x', 'q', 'pp', 'p:p')]
        items += [('MergeAttributes', s, t) for t in sets]
    for kv in ([], [('a', '1')], [('a', '1'), ('b', '2')], [('a', '1'), ('b', '1')]):
        items += [('FindKey', (), (v, tuple(kv))) for v in ('1', '2', '3')]
    items += [('Serialize', (), tuple(kv)) for kv in ([], [('a', '')], [('a', '1'), ('b', 'x y')], [('a', '<&>"\''), ('b:c', '\r\n\t')], [('c', 'z'), ('b', '&amp;')])]
    harness.parallel(chk, items, case)


class FCl(ICl):
    """one file: opening may fail, reading gives its bytes, any operation may meet an error"""
    def __init__(self, size=0, err=None, opens=True):
        super().__init__()
        self.size, self.err, self.opens = size, err, opens

    def fs(self, st, k, v=None):
        if v is not None:
            st.mem[('fs', k)] = v
        return st.mem.get(('fs', k), ZERO)

    def call(self, ip, st, fr, g, this, args, node):
        n, cls = g['n'], g.get('cls') or ''
        qn = g['qn']
        if re.search(r'basic_(if|of|i|o)?stream|basic_ios|ios_base', cls) and 'stringstream' not in cls:
            if n in ('basic_ifstream', 'basic_ofstream') or n == 'open':
                if args:
                    v = models.valarg(ip, st, g, 0, args)
                    st.trace = st.trace + (('open', v, args[1] if len(args) > 1 else ZERO),)
                    self.fs(st, 'open', ONE if self.opens else ZERO)
                    if not self.opens:
                        self.fs(st, 'fail', ONE)
                return [(st, VOID)]
            if n == 'is_open':
                return [(st, self.fs(st, 'open'))]
            f, e, b = (self.fs(st, k) == ONE for k in ('fail', 'eof', 'bad'))
            B = lambda x: [(st, ONE if x else ZERO)]
            if n == 'good' and not args:
                return B(not (f or e or b))
            if n == 'eof':
                return B(e)
            if n == 'bad':
                return B(b)
            if n in ('fail', 'operator!'):
                return B(f or b)
            if n == 'operator bool':
                return B(not (f or b))
            if n == 'clear' and not args:
                for k in ('fail', 'eof', 'bad'):
                    self.fs(st, k, ZERO)
                return [(st, VOID)]
            if n == 'read' and args[1][0] == 'c':
                off = self.fs(st, 'off')[1]
                if f or e or b:
                    self.fs(st, 'gcount', ZERO)
                    self.fs(st, 'fail', ONE)
                    return [(st, this)]
                want = args[1][1]
                k = min(want, self.size - off)
                bad = self.err is not None and off + k > self.err
                if bad:
                    k = max(0, self.err - off)
                st.mem[('filedata', args[0])] = T('data', ('c', off), ('c', k))
                self.fs(st, 'off', ('c', off + k))
                self.fs(st, 'gcount', ('c', k))
                if bad:
                    self.fs(st, 'bad', ONE)
                elif k < want:
                    self.fs(st, 'eof', ONE)
                    self.fs(st, 'fail', ONE)
                return [(st, this)]
            if n == 'gcount':
                return [(st, self.fs(st, 'gcount'))]
            if n == 'write':
                v = self.text_at(ip, st, args[0])
                v = S(v) if v is not None else models.valarg(ip, st, g, 0, args)
                st.trace = st.trace + (('write', v, args[1]),)
                if self.err == 'write':
                    self.fs(st, 'bad', ONE)
                return [(st, this)]
            if n in ('close', 'flush'):
                st.trace = st.trace + ((n,),)
                if self.err == 'close':
                    self.fs(st, 'fail' if n == 'close' else 'bad', ONE)
                return [(st, VOID if n == 'close' else this)]
        if 'basic_string' in cls and n == 'append' and len(args) == 2 and ('filedata', args[0]) in st.mem:
            dv = st.mem[('filedata', args[0])]
            l = ip.deref_loc(this)
            ip.store(st, l, mk_cat(ip.load(st, l), T('bytes', dv[2], args[1]) if args[1][0] == 'c' and args[1][1] <= dv[3][1] else T('stale', dv, args[1])), fr, node)
            return [(st, this)]
        return super().call(ip, st, fr, g, this, args, node)


def bytes_of(v):
    """[(offset, length)] of a text made of file contents"""
    parts = v[2:] if v[:2] == ('t', 'cat') else () if v == S('') else (v,)
    return [(p[2][1], p[3][1]) if p[:2] == ('t', 'bytes') else None for p in parts]


def files(chk, d):
    F = 'kmlbase::File'
    f = method(d, F, 'ReadFileToString', 2)
    for size in (0, 1, 1023, 1024, 1025, 2048, 3000, 5000):
        for opens, err, out, nm in ((1, None, 1, 1), (0, None, 1, 1), (1, 0, 1, 1), (1, size // 2, 1, 1), (1, size - 1, 1, 1), (1, None, 0, 1), (1, None, 1, 0)):
            if err is not None and (err < 0 or err >= size and size):
                continue
            cl = FCl(size, err if size else None, bool(opens))
            ip = EInterp(d.db, cl)
            st = State()
            o = ip.tmp(st, T('old'))
            rs = ip.run(f, None, [('p', ip.tmp(st, S('f.kml' if nm else ''))), ('p', o) if out else ZERO], st)

            def expect(q, s):
                r = q(mk_nz(s.mem[('ret',)]))
                w = bool(opens and out and nm and (err is None or not size))
                if r != w:
                    return 'says %s although the file %s' % (r, 'is read' if w else 'is not read')
                if not w:
                    return None
                if [e[1] for e in s.trace if e[0] == 'open'] != [S('f.kml')]:
                    return 'another file is opened'
                b = bytes_of(ip.load(s, o))
                if None in b:
                    return 'the text is %s' % pp(ip.load(s, o))[:80]
                pos = 0
                for a, n in b:
                    if a != pos:
                        return 'a part is repeated or missing at %d' % pos
                    pos += n
                return None if pos == size else '%d of %d bytes are read' % (pos, size)
            report(chk, 'T3', 'reading a file of %d bytes%s%s%s%s' % (size, '' if opens else ', cannot be opened', '' if err is None else ', error at %d' % err, '' if out else ', not stored', '' if nm else ', no name'), f, rs, expect, ip)
    f = method(d, F, 'WriteStringToFile', 2)
    for text in (S(''), S('abc'), S('a\0b')):
        for opens, err, nm in ((1, None, 1), (0, None, 1), (1, 'write', 1), (1, 'close', 1), (1, None, 0)):
            ip = EInterp(d.db, FCl(0, err, bool(opens)))
            st = State()
            rs = ip.run(f, None, [('p', ip.tmp(st, text)), ('p', ip.tmp(st, S('f.kml' if nm else '')))], st)

            def expect(q, s):
                r = q(mk_nz(s.mem[('ret',)]))
                w = bool(opens and nm and err is None)
                if r != w and not (text == S('') and err):
                    return 'says %s although the file %s' % (r, 'is written' if w else 'is not written')
                if not w:
                    return None
                if [e[1] for e in s.trace if e[0] == 'open'] != [S('f.kml')]:
                    return 'another file is opened'
                got = ''
                for e in s.trace:
                    if e[0] == 'write':
                        if e[1][0] != 's' or e[2][0] != 'c' or e[2][1] > len(e[1][1]):
                            return 'more or something else is written'
                        got += e[1][1][:e[2][1]]
                return None if got == text[1] else '%r is written instead of %r' % (got, text[1])
            report(chk, 'T3', 'writing %r%s%s%s' % (text[1], '' if opens else ', cannot be opened', '' if err is None else ', error at %s' % err, '' if nm else ', no name'), f, rs, expect, ip)
    # paths
    f = method(d, F, 'JoinPaths', 2)
    ps = ['', 'a', 'a/', '/', 'a/b', '/a', '/a/', 'a b', '.', 'c.kml']
    for a in ps:
        for b in ps:
            ip, rs, _ = run1(d, f, [S(a), S(b)])
            w = {b} if not a else {a} if not b else {a + b} if a.endswith('/') else {a + '/' + b}
            report(chk, 'T3', 'joining %r and %r' % (a, b), f, rs, lambda q, s: None if s.mem[('ret',)][0] == 's' and s.mem[('ret',)][1] in w else 'gives %s' % pp(s.mem[('ret',)]), ip)
    f = method(d, F, 'SplitFilePath', 3)
    for p in ['', 'a', 'a/b', '/a', '/', 'a/', 'a/b/c', '/a/b', 'a\\b', 'a//b', '../x', 'd.e/f.g', 'a/b\\c']:
        for o1, o2 in ((1, 1), (0, 1), (1, 0)):
            ip = EInterp(d.db, ICl())
            st = State()
            x, y = ip.tmp(st, S('old')), ip.tmp(st, S('old'))
            rs = ip.run(f, None, [('p', ip.tmp(st, S(p))), ('p', x) if o1 else ZERO, ('p', y) if o2 else ZERO], st)
            k = max(p.rfind('/'), p.rfind('\\'))
            base = '.' if k < 0 else p[:1] if k == 0 else p[:k]

            def expect(q, s):
                if ip.load(s, x) != S(base if o1 else 'old'):
                    return 'the directory is %s instead of %r' % (pp(ip.load(s, x)), base)
                return None if ip.load(s, y) == S(p[k + 1:] if o2 else 'old') else 'the file is %s' % pp(ip.load(s, y))
            report(chk, 'T3', 'splitting the path %r%s' % (p, '' if o1 and o2 else ', one part'), f, rs, expect, ip)
    # temporary files
    f = method(d, F, 'CreateNewTempFile', 1)

    class TC(ICl):
        def call(self, ip, st, fr, g, this, args, node):
            b = g['qn'].split('::')[-1]
            if b == 'umask':
                st.trace = st.trace + (('umask', args[0]),)
                old = st.mem.get(('umask',), T('umask0'))
                st.mem[('umask',)] = args[0]
                return [(st, old)]
            if b in ('mkstemp', 'mkostemp', 'mkstemps'):
                out = []
                for x, ok in ip.split(st, T('mkstemp ok'), fr, node):
                    x.trace = x.trace + (('mkstemp',),)
                    if ok:
                        x.mem[('cstr', args[0])] = T('tempname')
                        x.mem[('tempbuf',)] = args[0]
                        x.mem[('fd',)] = ONE
                    out.append((x, ('c', 7) if ok else ('c', -1)))
                return out
            if b == 'close' and not g.get('cls'):
                st.trace = st.trace + (('close', args[0]),)
                return [(st, ZERO)]
            if b == 'strlen' and ('cstr', args[0]) in st.mem:
                return [(st, T('size', st.mem[('cstr', args[0])]))]
            if 'basic_string' in g['qn'] and g['n'] in ('assign', 'operator=') and args and ('cstr', args[0]) in st.mem:
                v = st.mem[('cstr', args[0])]
                if len(args) == 2 and args[1] != T('size', v):
                    v = T('part', v, args[1])
                ip.store(st, ip.deref_loc(this), v, fr, node)
                return [(st, this)]
            return super().call(ip, st, fr, g, this, args, node)
    for null in (0, 1):
        ip = EInterp(d.db, TC())
        st = State()
        o = ip.tmp(st, T('old'))
        rs = ip.run(f, None, [ZERO if null else ('p', o)], st)

        def expect(q, s):
            r = q(mk_nz(s.mem[('ret',)]))
            if null:
                return 'succeeds without a place for the name' if r else 'a file is left behind' if [e for e in s.trace if e[0] == 'mkstemp'] and q(T('mkstemp ok')) else None
            um = s.mem.get(('umask',), T('umask0'))
            if um != T('umask0'):
                return 'the file mode mask of the process is changed'
            if len([e for e in s.trace if e[0] == 'mkstemp']) != 1:
                return 'no unique file is created'
            ok = q(T('mkstemp ok'))
            if r != ok:
                return 'says %s although the file was %s' % (r, 'created' if ok else 'not created')
            if ok and ('close', ('c', 7)) not in s.trace:
                return 'the file stays open'
            v = ip.load(s, o)
            return None if v == (T('tempname') if ok else T('old')) else 'the name is %s' % pp(v)
        report(chk, 'T3', 'temporary file%s' % (', no place for the name' if null else ''), f, rs, expect, ip)

    # files that are there, and removing them
    class SC(ICl):
        mode = 0o100644

        def call(self, ip, st, fr, g, this, args, node):
            b = g['qn'].split('::')[-1]
            if g['n'] == 'operator=' and g.get('cls') == 'stat':
                a, z = (x[1] if x[0] == 'p' else x for x in (this, args[0]))
                for k in [k for k in st.mem if k[0] == 'm' and k[1] in (z, ('p', z))]:
                    for o in (a, ('p', a)):
                        st.mem[('m', o, k[2])] = st.mem[k]
                return [(st, this)]
            if not g.get('cls') and b in ('stat', 'stat64', 'lstat', 'access', 'unlink', 'remove') and 'kmlbase' not in g['qn']:
                v = models.valarg(ip, st, g, 0, args)
                st.trace = st.trace + ((b, v),)
                out = []
                for x, ok in ip.split(st, T('removed' if b in ('unlink', 'remove') else 'there', v), fr, node):
                    if ok and 'stat' in b:
                        l = ip.deref_loc(args[1])
                        x.mem[('m', ('p', l), 'stat::st_mode')] = ('c', self.mode)
                        for k, fl in ip.all_fields('stat'):
                            if k.endswith('st_mode'):
                                ip.store(x, ('m', l, k), ('c', self.mode), fr, node)
                                ip.store(x, ('m', ('p', l), k), ('c', self.mode), fr, node)
                    out.append((x, ZERO if ok else ('c', -1)))
                return out
            return super().call(ip, st, fr, g, this, args, node)
    P0 = T('path')
    for what, mode in (('a file', 0o100644), ('a directory', 0o40755), ('a device', 0o20644), ('a file without rights', 0o100000)):
        f = method(d, F, 'Exists', 1)
        cl = SC()
        cl.mode = mode
        ip = EInterp(d.db, cl)
        st = State()
        rs = ip.run(f, None, [('p', ip.tmp(st, P0))], st)

        def expect(q, s):
            if [e[1] for e in s.trace] not in ([P0], [P0, P0]):
                return 'something else is looked at'
            want = q(T('there', P0)) and 'a file' in what
            return None if q(mk_nz(s.mem[('ret',)])) == want else 'is said %sto exist' % ('not ' if want else '')
        report(chk, 'T3', 'existence of %s' % what, f, rs, expect, ip)
    f = method(d, F, 'Delete', 1)
    ip = EInterp(d.db, SC())
    st = State()
    rs = ip.run(f, None, [('p', ip.tmp(st, P0))], st)

    def expect(q, s):
        if [e for e in s.trace if e[0] in ('unlink', 'remove')] not in ([('unlink', P0)], [('remove', P0)]):
            return 'the file itself is not what is removed'
        return None if q(mk_nz(s.mem[('ret',)])) == q(T('removed', P0)) else 'says the opposite'
    report(chk, 'T3', 'removing a file', f, rs, expect, ip)


FMT = {'F': '%Y-%m-%d', 'T': '%H:%M:%S', 'R': '%H:%M', '%': '%'}
WIDTH = {'Y': 4, 'm': 2, 'd': 2, 'H': 2, 'M': 2, 'S': 2}


def fmt(t):
    """a format as the term it produces"""
    for k, x in FMT.items():
        if k != '%':
            t = t.replace('%' + k, x)
    out = S('')
    for a, b in re.findall(r'%(.)|([^%]+)', t):
        out = mk_cat(out, T('tm', S(a)) if a and a != '%' else S(b or '%'))
    return out


def width(v):
    n = 0
    for p in (v[2:] if v[:2] == ('t', 'cat') else (v,)):
        n += len(p[1]) if p[0] == 's' else WIDTH.get(p[2][1], 99)
    return n


class DCl(ICl):
    def call(self, ip, st, fr, g, this, args, node):
        b = g['qn'].split('::')[-1]
        if b == 'strftime' and len(args) == 4:
            t = self.text_at(ip, st, args[2])
            if t is None or args[1][0] != 'c':
                raise AnalysisBroken('unknown format')
            v = fmt(t)
            if width(v) + 1 > args[1][1]:
                st.trace = st.trace + (('overflow', S('the text does not fit its buffer')),)
            st.mem[('cstr', args[0])] = v
            st.trace = st.trace + (('time', args[3]),)
            return [(st, ('c', width(v)))]
        if b == 'strptime' and len(args) == 3:
            t = self.text_at(ip, st, args[1])
            if t is None:
                raise AnalysisBroken('unknown format')
            src = models.valarg(ip, st, g, 0, args)
            if src[0] == 's':        # a fixed date
                return [(st, src)]
            out = []
            for x, ok in ip.split(st, T('parsed', src, fmt(t)), fr, node):
                x.trace = x.trace + (('strptime', src, fmt(t), args[2], ONE if ok else ZERO),)
                out.append((x, ('p', ('e', T('rest'), ZERO)) if ok else ZERO))
            return out
        return super().call(ip, st, fr, g, this, args, node)


def dates(chk, d):
    DT = 'kmlbase::DateTime'
    ip0 = EInterp(d.db, DCl())
    TM = [k for k, x in ip0.all_fields(DT) if ip0.ty(x['t']).get('n') in ('tm', 'struct tm')]
    if len(TM) != 1:
        raise AnalysisBroken('the date is kept in %d places' % len(TM))
    TM = TM[0]
    D, TI = fmt('%Y-%m-%d'), fmt('%H:%M:%S')
    full = mk_cat(mk_cat(mk_cat(D, S('T')), TI), S('Z'))
    for n, w in (('GetXsdTime', TI), ('GetXsdDate', D), ('GetXsdDateTime', full)):
        f = method(d, DT, n, 0)
        ip = EInterp(d.db, DCl())
        st = State()
        o = obj(st, 'D', DT)
        rs = ip.run(f, o, [], st)

        def expect(q, s):
            for e in s.trace:
                if e[0] == 'time' and e[1] != ('p', ('m', o, TM)):
                    return 'another date is written'
            r = s.mem[('ret',)]
            r = ip.load(s, r[1]) if r[0] == 'p' and ('cstr', r) not in s.mem else s.mem.get(('cstr', r), r)
            return None if r == w else 'gives %s instead of %s' % (pp(r), pp(w))
        report(chk, 'T4', n, f, rs, expect, ip)
    f = method(d, DT, 'Create', 1)
    ip = EInterp(d.db, DCl())
    st = State()
    rs = ip.run(f, None, [('p', ip.tmp(st, T('TEXT')))], st)

    def expect(q, s):
        ev = [e for e in s.trace if e[0] == 'strptime']
        if len(ev) != 1 or ev[0][1] not in (T('TEXT'), T('cstr', T('TEXT'))):
            return 'the text is not read'
        if ev[0][2] != full:
            return 'a date is read in the form %s' % pp(ev[0][2])
        r = s.mem[('ret',)]
        if (r != ZERO) != (ev[0][4] == ONE):
            return 'a bad date is accepted' if r != ZERO else 'a date is refused'
        return None if r == ZERO or ev[0][3] == ('p', ('m', r, TM)) else 'the date is read into something else'
    report(chk, 'T4', 'Create', f, rs, expect, ip)
    f = method(d, DT, 'GetTimeT', 0)
    epoch = datetime.date(1970, 1, 1)

    def one(c, it):
        y, m = it
        ip = EInterp(d.db, DCl())
        st = State()
        o = obj(st, 'D', DT)
        loc = ('m', o, TM)
        for k, v in (('tm_year', ('c', y - 1900)), ('tm_mon', ('c', m - 1)), ('tm_mday', sym('day')), ('tm_hour', sym('hour')), ('tm_min', sym('min')), ('tm_sec', sym('sec')), ('tm_isdst', ('c', -1))):
            st.mem[('m', ('p', loc), 'tm::' + k)] = v
        rs = ip.run(f, o, [], st)
        days = (datetime.date(y, m, 1) - epoch).days

        def expect(q, s):
            r = flin(s.mem[('ret',)])
            w = {sym('sec'): 1, sym('min'): 60, sym('hour'): 3600, sym('day'): 86400}
            k1 = r.pop(1, 0)
            if r != w:
                return 'is not the number of seconds: %s' % pp(s.mem[('ret',)])[:100]
            return None if k1 == (days - 1) * 86400 else 'is %s days off' % float((k1 - (days - 1) * 86400) / 86400)
        report(c, 'T4', 'GetTimeT in %d-%02d' % (y, m), f, rs, expect, ip)
    years = (1901, 1904, 1967, 1968, 1969, 1970, 1971, 1972, 1973, 1999, 2000, 2001, 2004, 2008, 2024, 2026, 2038, 2099, 2100, 2101)
    harness.parallel(chk, [(y, m) for y in years for m in range(1, 13)], one)


from bounds import sym


def run(chk, db):
    d = Dom(db)
    d.classes()
    chk.rule('T1', 'splitting and comparing texts treats every character, and loses none')
    chk.rule('T2', 'an attribute list is a map from names to values: every operation changes exactly the names it is about')
    chk.rule('T3', 'a file is read and written completely or a failure is reported; paths are joined and split without loss')
    chk.rule('T4', 'dates are read and written in the form of the standard and counted in seconds since 1970')
    for g in (strings, attr_lists, files, dates):
        guard(chk, g.__name__, g, chk, d)
    return {}
