"""Web addresses: splitting, resolving and normalising references, what to fetch, and which part of a KMZ is meant.
The URI library is modelled (RFC 3986, every call may also fail); texts are schematic: W stands for any run of ordinary
characters."""
from eng import *
import re
import harness
from harness import guard
from ids import report, getter
from kmz import method, S, W

UP, UR, KU = 'kmlbase::UriParser', 'UriUriStructA', 'kmlengine::KmlUri'
COMP = ('scheme', 'hostText', 'portText', 'query', 'fragment')


# ---------------------------------------------------------------- RFC 3986 on (schematic) texts
def usplit(t):
    """-> dict scheme/userInfo/hostText/portText/path/query/fragment (None when absent)"""
    m = re.match(r'^(?:([^:/?#]+):)?(?://([^/?#]*))?([^?#]*)(?:\?([^#]*))?(?:#(.*))?$', t, re.S)
    sch, auth, path, query, frag = m.groups()
    host = port = None
    if auth is not None:
        auth = auth.rpartition('@')[2]
        host, c, port = auth.partition(':')
        if not c:
            port = None
    return {'scheme': sch, 'auth': m.group(2), 'hostText': host, 'portText': port, 'path': path, 'query': query, 'fragment': frag}


def ujoin(u):
    r = ''
    if u['scheme'] is not None:
        r += u['scheme'] + ':'
    if u['auth'] is not None:
        r += '//' + u['auth']
    r += u['path']
    if u['query'] is not None:
        r += '?' + u['query']
    if u['fragment'] is not None:
        r += '#' + u['fragment']
    return r


def dots(p):
    """remove_dot_segments"""
    out = []
    i = p
    while i:
        if i.startswith('../'):
            i = i[3:]
        elif i.startswith('./'):
            i = i[2:]
        elif i.startswith('/./'):
            i = i[2:]
        elif i == '/.':
            i = '/'
        elif i.startswith('/../'):
            i = i[3:]
            out = out[:-1]
        elif i == '/..':
            i = '/'
            out = out[:-1]
        elif i in ('.', '..'):
            i = ''
        else:
            j = i.find('/', 1)
            j = len(i) if j < 0 else j
            out.append(i[:j])
            i = i[j:]
    return ''.join(out)


def uresolve(base, rel):
    b, r = usplit(base), usplit(rel)
    if b['scheme'] is None:
        return None
    t = dict(r)
    if r['scheme'] is not None:
        t['path'] = dots(r['path'])
    elif r['auth'] is not None:
        t['path'] = dots(r['path'])
        t['scheme'] = b['scheme']
    else:
        if not r['path']:
            t['path'] = b['path']
            if r['query'] is None:
                t['query'] = b['query']
        elif r['path'].startswith('/'):
            t['path'] = dots(r['path'])
        elif b['auth'] is not None and not b['path']:
            t['path'] = dots('/' + r['path'])
        else:
            t['path'] = dots(b['path'][:b['path'].rfind('/') + 1] + r['path'])
        t['auth'] = b['auth']
        t['scheme'] = b['scheme']
    return ujoin(t)


def unormal(t):
    u = usplit(t)
    if u['path'].startswith('/') or u['scheme'] is not None:
        u['path'] = dots(u['path'])
    else:                                       # relative: leading .. stay
        out = []
        for s in u['path'].split('/'):
            if s == '.':
                continue
            if s == '..' and out and out[-1] != '..':
                out.pop()
                continue
            out.append(s)
        u['path'] = '/'.join(out)
    return ujoin(u)


def esc(t):
    return ''.join(c if c.isalnum() or c in '-._~/' + W else '%%%02X' % ord(c) for c in t)


def unesc(t):
    return re.sub(r'%([0-9A-Fa-f]{2})', lambda m: chr(int(m.group(1), 16)), t)


FAILS = ('parses', 'adds', 'norms', 'reqs', 'strs', 'mallocs', 'tofile', 'touri')


def failed(s):
    for k, b in s.facts.items():
        if k[0] == 't' and k[1] == 'nz':
            k = k[2]
        if k[0] == 't' and k[1] in FAILS and not b:
            return k[1]
    return None


def linear(t):
    """term -> {atom: coefficient, 1: constant}"""
    if t[0] == 'c':
        return {1: t[1]}
    if t[0] == 't' and t[1] in ('+', '*', 'trunc', 'sext', 'zext', 'conv') or t[0] == 't' and t[1] == 'add':
        if t[1] in ('trunc', 'sext', 'zext', 'conv'):
            return linear(t[2])
        a, b = linear(t[2]), linear(t[3])
        if t[1] in ('+', 'add'):
            r = dict(a)
            for k, v in b.items():
                r[k] = r.get(k, 0) + v
            return r
        for x, y in ((a, b), (b, a)):
            if set(x) == {1}:
                return {k: v * x[1] for k, v in y.items()}
    return {t: 1}


def at_least(t, atom, k, c):
    """t >= k*atom + c for every atom >= 0"""
    l = linear(t)
    if set(l) - {atom, 1}:
        return False
    return l.get(atom, 0) >= k and l.get(1, 0) >= c


class UCl(EngClient):
    """the URI library on texts"""
    nomalloc = False

    def __init__(self, d):
        super().__init__()
        self.d = d
        self.problems = []

    def ev(self, st, *e):
        st.trace = st.trace + (e,)

    def opaque(self, ip, st, fr, g, this, args, node):
        if g['n'] == 'new':
            self.ev(st, 'new', this)
        if g['n'] == 'new[]':
            self.ev(st, 'newarr', None)
        if g['n'] == 'delete':
            self.ev(st, 'free', args[0])
        return super().opaque(ip, st, fr, g, this, args, node)

    def texts(self, ip, st, fr, node, addr, u, t):
        """fill the structure from the text"""
        for c in COMP:
            a = ('p', ('m', addr, UR + '::' + c))
            self.range(ip, st, fr, node, a, u[c])
        segs = []
        p = u['path']
        if p:
            if p.startswith('/'):
                p = p[1:]
            segs = p.split('/')
        o = [ip.new_obj(st, 'UriPathSegmentStructA') for _ in segs]
        for i, x in enumerate(segs):
            st.assume(mk_nz(o[i]), True)
            self.range(ip, st, fr, node, ('p', ('m', o[i], 'UriPathSegmentStructA::text')), x)
            ip.store(st, ('m', o[i], 'UriPathSegmentStructA::next'), o[i + 1] if i + 1 < len(o) else ZERO, fr, node)
        ip.store(st, ('m', addr, UR + '::pathHead'), o[0] if o else ZERO, fr, node)
        ip.store(st, ('m', addr, UR + '::pathTail'), o[-1] if o else ZERO, fr, node)
        ip.store(st, ('m', addr, UR + '::absolutePath'), ONE if u['path'].startswith('/') and u['auth'] is None else ZERO, fr, node)
        st.mem[('uri', addr)] = t

    def range(self, ip, st, fr, node, a, x):
        f, l = ('m', a, 'UriTextRangeStructA::first'), ('m', a, 'UriTextRangeStructA::afterLast')
        if x is None:
            ip.store(st, f, ZERO, fr, node)
            ip.store(st, l, ZERO, fr, node)
            return
        o = ip.new_obj(st, 'char[]')
        st.assume(mk_nz(o), True)
        st.mem[('cstr', o)] = S(x)
        e = mk_add(o, ('c', len(x)))
        st.assume(mk_nz(e), True)
        ip.store(st, f, o, fr, node)
        ip.store(st, l, e, fr, node)

    def branch2(self, ip, st, fr, node, atom, ok, bad=('c', 1)):
        out = []
        for x, b in ip.split(st, atom, fr, node):
            if b:
                r = ok(x)
                out.append((x, ZERO if r is None else r))
            else:
                out.append((x, bad))
        return out

    def call(self, ip, st, fr, g, this, args, node):
        n = g['n']
        if this is None and 'body' not in g:
            if n == 'memset' and args[1] == ZERO:
                for c in COMP:
                    self.range(ip, st, fr, node, ('p', ('m', args[0], UR + '::' + c)), None)
                for c in ('pathHead', 'pathTail', 'absolutePath'):
                    ip.store(st, ('m', args[0], UR + '::' + c), ZERO, fr, node)
                return [(st, args[0])]
            if n == 'malloc':
                k = sum(1 for e in st.trace if e[0] == 'malloc')
                out = []
                for x, b in ([(st, True)] if self.nomalloc else ip.split(st, T('mallocs', ('c', k)), fr, node)):
                    if b:
                        o = ip.new_obj(x, 'char[]')
                        x.assume(mk_nz(o), True)
                        x.mem[('alloc', o)] = args[0]
                        self.ev(x, 'malloc', o, args[0])
                        out.append((x, o))
                    else:
                        self.ev(x, 'malloc', None, args[0])
                        out.append((x, ZERO))
                return out
            if n == 'free':
                if args[0] != ZERO:
                    self.ev(st, 'free', args[0])
                return [(st, VOID)]
            if n.startswith('uri') and n.endswith('A'):
                v = self.vals(ip, st, g, args)
                r = self.uri(ip, st, fr, g, n[3:-1], args, v, node)
                if r is not None:
                    return r
                self.problems.append('unknown library function %s' % n)
        return super().call(ip, st, fr, g, this, args, node)

    def buffer(self, ip, st, b, need, what):
        """a destination buffer of known size is large enough"""
        if b == ZERO:
            self.ev(st, 'problem', 'the library is given no buffer for %s' % what)
            return
        size = st.mem.get(('alloc', b))
        if size is None and b[0] == 'p' and b[1][0] == 'e' and b[1][2] == ZERO:      # the first element of a vector or string
            size = mk_size(ip.load(st, ip.deref_loc(b[1][1])))
        if any(e == ('free', b) for e in st.trace):
            self.ev(st, 'problem', 'a released buffer is used for %s' % what)
        elif size is None:
            self.ev(st, 'problem', 'the size of the buffer for %s is not known' % what)
        elif not need(size):
            self.ev(st, 'problem', 'the buffer for %s has only %s bytes' % (what, pp(size).replace(W, '*')))

    def uri(self, ip, st, fr, g, n, args, v, node):
        if n in ('ParseUri', 'ParseSingleUri'):
            if n == 'ParseUri':
                addr, t = ip.load(st, ('m', args[0], 'UriParserStateStructA::uri')), v[1]
            else:
                addr, t = args[0], v[1]
            if t[0] != 's':
                raise AnalysisBroken('text parsed is not known: %s' % pp(t)[:100])
            # a failed parse leaves parts behind; they must be released
            out = []
            for x, b in ip.split(st, T('parses', t), fr, node):
                if b:
                    self.texts(ip, x, fr, node, addr, usplit(t[1]), t)
                else:
                    x.mem[('uri', addr)] = T('garbage')
                out.append((x, ZERO if b else ('c', 1)))
            return out
        if n == 'FreeUriMembers':
            st.mem.pop(('uri', args[0]), None)
            for c in COMP:
                self.range(ip, st, fr, node, ('p', ('m', args[0], UR + '::' + c)), None)
            for c in ('pathHead', 'pathTail'):
                ip.store(st, ('m', args[0], UR + '::' + c), ZERO, fr, node)
            return [(st, VOID)]
        t = st.mem.get(('uri', args[1 if n in ('ToString', 'AddBaseUri') else 0])) if args else None
        if n in ('AddBaseUri', 'ToString', 'NormalizeSyntax', 'ToStringCharsRequired') and (t is None or t[0] != 's'):
            self.ev(st, 'problem', 'an address that is not parsed is used')
            return [(st, ('c', 1))]
        if n == 'AddBaseUri':
            b = st.mem.get(('uri', args[2]))
            if b is None or b[0] != 's':
                self.ev(st, 'problem', 'a base that is not parsed is used')
                return [(st, ('c', 1))]
            r = uresolve(b[1], t[1])
            if r is None:
                return [(st, ('c', 5))]
            return self.branch2(ip, st, fr, node, T('adds', t, b), lambda x: self.texts(ip, x, fr, node, args[0], usplit(r), S(r)))
        if n == 'NormalizeSyntax':
            r = unormal(t[1])
            return self.branch2(ip, st, fr, node, T('norms', t), lambda x: self.texts(ip, x, fr, node, args[0], usplit(r), S(r)))
        if n == 'ToStringCharsRequired':
            return self.branch2(ip, st, fr, node, T('reqs', t), lambda x: ip.store(x, ip.deref_loc(args[1]), T('req', t), fr, node))
        if n == 'ToString':
            def ok(x):
                x.mem[('cstr', args[0])] = t
                if args[3] != ZERO:
                    ip.store(x, ip.deref_loc(args[3]), T('written'), fr, node)
            mx = linear(args[2])
            self.buffer(ip, st, args[0], lambda size: linear(size) == mx, 'the text of an address')
            if not at_least(args[2], T('req', t), 1, 1):
                self.ev(st, 'problem', 'only %s characters are allowed for a text' % pp(args[2]).replace(W, '*'))
            return self.branch2(ip, st, fr, node, T('strs', t), ok)
        if n in ('UriStringToUnixFilename', 'UriStringToWindowsFilename', 'UnixFilenameToUriString', 'WindowsFilenameToUriString'):
            src, dst = v[0], args[1]
            k, c = {'UnixFilenameToUriString': (3, 8), 'WindowsFilenameToUriString': (3, 9)}.get(n, (1, 1))
            if src[0] == 's':
                need = lambda size: size[0] == 'c' and size[1] >= k * len(src[1]) + c
            else:
                need = lambda size: at_least(size, mk_size(src), k, c)
            self.buffer(ip, st, dst, need, 'a file name' if n.startswith('UriString') else 'an address')
            r = T(n, src)
            if src[0] == 's' and n == 'UnixFilenameToUriString':
                r = S(('file://' if src[1].startswith('/') else '') + esc(src[1]))
            if src[0] == 's' and n == 'UriStringToUnixFilename':
                r = S(unesc(src[1][7:] if src[1].startswith('file://') else src[1]))

            def ok(x):
                x.mem[('cstr', dst)] = r
            return self.branch2(ip, st, fr, node, T('tofile' if n.startswith('UriString') else 'touri', src), ok)
        return None


def owned(s, root):
    """objects reachable from an object through its members"""
    seen, todo = set(), [root]
    while todo:
        o = todo.pop()
        if o in seen or o[0] != 'o':
            continue
        seen.add(o)
        for k, v in s.mem.items():
            if k[0] == 'm' and base_obj(k) == o and isinstance(v, tuple) and v and v[0] == 'o':
                todo.append(v)
    return seen


def base_obj(l):
    while l[0] in ('m', 'e', 'p'):
        l = l[1]
    return l


def released(s, keep=None):
    """every object and buffer made is released exactly once, except what is handed out; nothing parsed is left behind"""
    for e in s.trace:
        if e[0] == 'problem':
            return e[1]
    made = [e[1] for e in s.trace if e[0] in ('new', 'malloc') and e[1] is not None]
    freed = [e[1] for e in s.trace if e[0] == 'free']
    kept = owned(s, keep) if keep is not None else set()
    for o in made:
        n = freed.count(o)
        if o in kept:
            if n:
                return 'what is handed out is released'
        elif n != 1:
            return 'something allocated is released %d times' % n
    for k in s.mem:
        if k[0] == 'uri' and base_obj(k[1]) in freed:
            return 'the parsed parts of an address are not released'
    return None


def vis(x):
    return x.replace(W, '*') if isinstance(x, str) else pp(x).replace(W, '*')


OLD = 'old content'
ABS = ['http://W.com/W/W.kml', 'http://W:80/W.kmz', 'http://W/W.kmz/W/x.kml', 'http://W/W.kmz/doc.kml#W', 'http://W/W#W',
       'http://W/', 'http://W', 'https://W.W:8080/a/b/c/W']
REL = ['W/W.kml', '../W.kml#W', '#W', 'W.kmz/W', '../../W', './W', '/W/W', '//W/W.kml', 'W.kmz', 'W.kmz#W', 'http://W/x/W.kml', 'http://W:81/y.kmz/W#z', '../y.kmz/W.kml']
ODD = ['', 'http://W/W?W#W', 'http://W/W.kml?W=W', 'file:///W/W.kml', 'W:W', 'http://W/#', 'W?W']
ABS, REL, ODD = [[x.replace('W', W) for x in l] for l in (ABS, REL, ODD)]


def strs(ip, st, vals):
    return [ip.tmp(st, S(v)) for v in vals]


def fn(d, qn, np=None):
    return d.fn1(qn, np)


def result(chk, rule, key, f, rs, o, want, old=OLD):
    """bool function with a text output: want = text, or None when it must fail"""
    def expect(q, s):
        r = q(mk_nz(s.mem[('ret',)]))
        e = released(s)
        if e:
            return e
        bad = failed(s)
        if r:
            if bad or want is None:
                return 'succeeds although %s' % ('there is no result' if want is None else 'a step of the conversion fails')
            if o is not None and s.mem.get(o) != S(want):
                return 'gives %s instead of %s' % (vis(s.mem.get(o)), vis(S(want)))
        else:
            if not bad and want is not None:
                return 'fails although every step works'
            if o is not None and s.mem.get(o) != S(old):
                return 'fails but changes the output to %s' % vis(s.mem.get(o))
        return None
    report(chk, rule, key, f, rs, expect)


def components(chk, d):
    f = method(d, UP, 'Parse', 1)
    mk = [d.db.functions[m] for m in d.db.records[UP]['methods'] if d.db.functions[m]['kind'] == 'ctor' and 'body' in d.db.functions[m] and not d.db.functions[m].get('copy')]
    names = {'GetScheme': 'scheme', 'GetHost': 'hostText', 'GetPort': 'portText', 'GetPath': 'path', 'GetQuery': 'query', 'GetFragment': 'fragment'}
    cr = method(d, UP, 'CreateFromParse')
    for t in ABS + REL + ODD:
        cl = UCl(d)
        ip = EInterp(d.db, cl)
        st = State()
        rs = ip.run(cr, None, [S(t)], st)

        def expect(q, s):
            r = s.mem[('ret',)]
            ok = q(T('parses', S(t)))
            if ok != (r != ZERO):
                return 'gives %s although the text is %san address' % ('nothing' if ok else 'something', '' if ok else 'not ')
            return released(s, r if ok else None)
        report(chk, 'U1', 'CreateFromParse %s' % vis(t), cr, rs, expect)
        good = [(s, v) for s, v in rs if v != ZERO]
        u = usplit(t)
        for nm, c in sorted(names.items()):
            g = method(d, UP, nm)
            for null in (0, 1):
                for s, v in good:
                    x = s.copy()
                    o = ip.tmp(x, S(OLD))
                    want = u[c]
                    if c == 'path':
                        want = want[1:] if want.startswith('/') else want
                        if not u['path']:
                            want = None
                    rs2 = ip.run(g, v, [ZERO if null else ('p', o)], x)

                    def expect(q, s):
                        r = q(mk_nz(s.mem[('ret',)]))
                        if r != (want is not None):
                            return 'says there is %s' % ('one' if r else 'none')
                        got = s.mem.get(o)
                        if null or want is None:
                            return None if got == S(OLD) else 'changes the output'
                        return None if got == S(want) else 'gives %s instead of %s' % (vis(got), vis(S(want)))
                    report(chk, 'U1', '%s of %s%s' % (nm, vis(t), ', not asked for' if null else ''), g, rs2, expect)


def conversions(chk, d):
    P = T('name')
    for nm, lib, in (('UriToUnixFilename', 'UriStringToUnixFilename'), ('UriToWindowsFilename', 'UriStringToWindowsFilename'),
                     ('UnixFilenameToUri', 'UnixFilenameToUriString'), ('WindowsFilenameToUri', 'WindowsFilenameToUriString'),
                     ('UriToFilename', 'UriStringToUnixFilename')):
        f = method(d, UP, nm)
        for null in (0, 1):
            cl = UCl(d)
            ip = EInterp(d.db, cl)
            st = State()
            o = ip.tmp(st, S(OLD))
            rs = ip.run(f, None, [('p', ip.tmp(st, P)), ZERO if null else ('p', o)], st)

            def expect(q, s):
                r = q(mk_nz(s.mem[('ret',)]))
                e = released(s)
                if e:
                    return e
                if r != (not failed(s) and not null):
                    return '%s although %s' % ('succeeds' if r else 'fails', 'a step fails' if r else 'every step works')
                got = s.mem.get(o)
                if got != (T(lib, P) if r else S(OLD)):
                    return 'the output is %s' % vis(got)
                return None
            report(chk, 'U2', '%s%s' % (nm, ', no output' if null else ''), f, rs, expect)
    f = method(d, UP, 'FilenameToUri')
    for t in ('W/W.kml', '/W/W.kml', 'C:\\W\\W.kml', 'W\\W', '\\W'):
        t = t.replace('W', W)
        ip = EInterp(d.db, UCl(d))
        st = State()
        o = ip.tmp(st, S(OLD))
        rs = ip.run(f, None, [('p', ip.tmp(st, S(t))), ('p', o)], st)

        def expect(q, s):
            r = q(mk_nz(s.mem[('ret',)]))
            e = released(s)
            if e:
                return e
            if r != (not failed(s)):
                return '%s although %s' % ('succeeds' if r else 'fails', 'a step fails' if r else 'every step works')
            want = T('WindowsFilenameToUriString', S(t)) if '\\' in t else S(('file://' if t.startswith('/') else '') + esc(t))
            got = s.mem.get(o)
            return None if got == (want if r else S(OLD)) else 'the output is %s' % vis(got)
        report(chk, 'U2', 'FilenameToUri %s' % vis(t), f, rs, expect)


def one(chk, d, rule, name, texts, want, nulls=True, old=OLD):
    f = fn(d, 'kmlengine::' + name)
    for t in texts:
        for null in (0, 1) if nulls else (0,):
            ip = EInterp(d.db, UCl(d))
            st = State()
            o = ip.tmp(st, S(old))
            rs = ip.run(f, None, [('p', ip.tmp(st, S(t))), ZERO if null else ('p', o)], st)
            result(chk, rule, '%s %s%s' % (name, vis(t), ', no output' if null else ''), f, rs, None if null else o, want(t, null), old)


def pathof(t):
    u = usplit(t)
    return None if not u['path'] else u['path'].lstrip('/') if u['path'].startswith('/') else u['path']


def fetchable(t):
    """the address without the fragment"""
    u = usplit(t)
    u['fragment'] = None
    return ujoin(u)


FETCH = [t for t in ABS + REL if t not in ('http://' + W, '/' + W + '/' + W, '//' + W + '/' + W + '.kml')]


def functions(chk, d):
    al = ABS + REL + ODD
    one(chk, d, 'U3', 'NormalizeUri', ABS + REL + [x.replace('W', W) for x in ('http://W/a/../W', 'W/./W', 'a/../../W', '../W')], lambda t, null: None if null else unormal(t))
    one(chk, d, 'U3', 'NormalizeHref', [x.replace('W', W) for x in ('W/a b/../W.png', './W', '../W/W', 'W/./../../W', '/W/../W', 'W%W/x')],
        lambda t, null: None if null else unesc(re.sub('^file://', '', unormal(('file://' if t.startswith('/') else '') + esc(t)))))
    one(chk, d, 'U3', 'SplitUriFragment', al, lambda t, null: usplit(t)['fragment'])
    one(chk, d, 'U3', 'SplitUriPath', al, lambda t, null: pathof(t))
    one(chk, d, 'U5', 'GetFetchableUri', FETCH, lambda t, null: fetchable(t), old='')
    g = fn(d, 'kmlengine::GetFetchableUri')
    for t in (x for x in ODD if '?' in x):
        ip = EInterp(d.db, UCl(d))
        st = State()
        o = ip.tmp(st, S(''))
        rs = ip.run(g, None, [('p', ip.tmp(st, S(t))), ('p', o)], st)
        lost = [s for s, v in rs if s.mem.get(o) == S(fetchable(t).partition('?')[0])]
        for s in lost:
            chk.bad('U5', 'GetFetchableUri %s loses the query' % vis(t), where(g), 'the query is dropped with the fragment')
        result(chk, 'U5', 'GetFetchableUri %s' % vis(t), g, [(s, v) for s, v in rs if s not in lost], o, fetchable(t), '')
    f = fn(d, 'kmlengine::SplitUri')
    order = ('scheme', 'hostText', 'portText', 'path', 'query', 'fragment')
    for t in al:
        for nulls in ((), order, ('scheme', 'path'), ('hostText', 'portText'), ('query', 'fragment')):
            ip = EInterp(d.db, UCl(d))
            st = State()
            o = {c: ip.tmp(st, S('')) for c in order}
            rs = ip.run(f, None, [('p', ip.tmp(st, S(t)))] + [ZERO if c in nulls else ('p', o[c]) for c in order], st)
            u = usplit(t)

            def expect(q, s):
                r = q(mk_nz(s.mem[('ret',)]))
                e = released(s)
                if e:
                    return e
                if r != (not failed(s)):
                    return '%s although the text is %san address' % ('succeeds' if r else 'fails', 'not ' if r else '')
                for c in order:
                    want = '' if c in nulls or not r else (pathof(t) or '') if c == 'path' else u[c] or ''
                    if s.mem.get(o[c]) != S(want):
                        return 'the %s is %s instead of %s' % (c.replace('Text', ''), vis(s.mem.get(o[c])), vis(S(want)))
                return None
            report(chk, 'U3', 'SplitUri %s%s' % (vis(t), ' without ' + ', '.join(nulls) if nulls else ''), f, rs, expect)


def resolving(chk, d):
    f = fn(d, 'kmlengine::ResolveUri')
    for b in ABS + REL[:3] + ['file:///' + W + '/' + W]:
        for r in REL + ['', W + '?' + W]:
            ip = EInterp(d.db, UCl(d))
            st = State()
            o = ip.tmp(st, S(OLD))
            rs = ip.run(f, None, [('p', ip.tmp(st, S(b))), ('p', ip.tmp(st, S(r))), ('p', o)], st)
            result(chk, 'U4', 'ResolveUri %s against %s' % (vis(r) or 'nothing', vis(b)), f, rs, o, uresolve(b, r))
    ip = EInterp(d.db, UCl(d))
    st = State()
    rs = ip.run(f, None, [('p', ip.tmp(st, S(ABS[0]))), ('p', ip.tmp(st, S(REL[0]))), ZERO], st)
    result(chk, 'U4', 'ResolveUri, no output', f, rs, None, None)
    f = fn(d, 'kmlengine::ResolveModelTargetHref')
    for b in ABS[:4] + REL[:1]:
        for g in ('geometry/W.dae', '../W.dae', 'http://W/z/W.dae', 'W.kmz/g/W.dae'):
            for t in ('../textures/W.jpg', 'W.jpg', 'http://W/W.jpg'):
                g, t = g.replace('W', W), t.replace('W', W)
                for null in (0, 1):
                    ip = EInterp(d.db, UCl(d))
                    cl = ip.client
                    cl.nomalloc = True
                    st = State()
                    o = ip.tmp(st, S(OLD))
                    rs = ip.run(f, None, [('p', ip.tmp(st, S(x))) for x in (b, g, t)] + [ZERO if null else ('p', o)], st)
                    gu = uresolve(b, g)
                    want = None if gu is None or null else uresolve(gu, t)
                    result(chk, 'U4', 'ResolveModelTargetHref %s in %s of %s%s' % (vis(t), vis(g), vis(b), ', no output' if null else ''), f, rs, None if null else o, want)


def kmzsplit(t):
    k = t.find('.kmz')
    if k < 0:
        return None
    return t[:k + 4], t[k + 5:]


KMZS = [x.replace('W', W) for x in ('http://W/W.kmz', 'http://W/W.kmz/W', 'http://W/W.kmz/W/doc.kml', 'http://W/W/W.kmz/W.kmz/W', 'W.kmz', 'W.kmz/', 'W.kmz/W',
                                    'http://W/W.kml', 'http://W/W', '', 'W', '.kmz', 'kmz', 'W/.kmz/a')]


def kmz(chk, d):
    f = fn(d, 'kmlengine::KmzSplit')
    for t in KMZS:
        for nu in (0, 1):
            for np in (0, 1):
                ip = EInterp(d.db, UCl(d))
                st = State()
                ou, op = ip.tmp(st, S(OLD)), ip.tmp(st, S(OLD))
                rs = ip.run(f, None, [('p', ip.tmp(st, S(t))), ZERO if nu else ('p', ou), ZERO if np else ('p', op)], st)

                def expect(q, s):
                    r = q(mk_nz(s.mem[('ret',)]))
                    k = kmzsplit(t)
                    if r != (k is not None):
                        return 'says it is %sinto a KMZ' % ('' if r else 'not ')
                    for o, null, want in ((ou, nu, k and k[0]), (op, np, k and k[1])):
                        w = S(OLD) if null or k is None else S(want)
                        if s.mem.get(o) != w:
                            return 'gives %s instead of %s' % (vis(s.mem.get(o)), vis(w))
                    return None
                report(chk, 'U5', 'KmzSplit %s%s%s' % (vis(t) or 'nothing', ', no url' if nu else '', ', no path' if np else ''), f, rs, expect)


def relative(chk, d):
    f = method(d, KU, 'CreateRelative')
    for b in ABS[:5] + [ABS[7]] + REL[:2]:
        for r in REL:
            ip = EInterp(d.db, UCl(d))
            ip.client.nomalloc = True
            st = State()
            rs = ip.run(f, None, [('p', ip.tmp(st, S(b))), ('p', ip.tmp(st, S(r)))], st)
            url = uresolve(b, r)

            def expect(q, s):
                v = s.mem[('ret',)]
                e = released(s, v if v != ZERO else None)
                if e:
                    return e
                bad = failed(s)
                if (v != ZERO) != (not bad and url is not None):
                    return 'gives %s although %s' % (('nothing', 'every step works') if v == ZERO else ('something', 'a step fails'))
                if v == ZERO:
                    return None
                k = kmzsplit(fetchable(url))
                want = {'get_url': S(url), 'get_target': S(r), 'is_kmz': ONE if k else ZERO,
                        'get_kmz_url': S(k[0] if k else ''), 'get_path_in_kmz': S(k[1] if k else '')}
                for g, w in want.items():
                    x = getter(ip, s, KU, g, v)
                    if g == 'is_kmz':
                        x = ONE if q(mk_nz(x)) else ZERO
                    if x != w:
                        return '%s is %s instead of %s' % (g, vis(x), vis(w))
                return None
            report(chk, 'U5', 'reference %s from %s' % (vis(r), vis(b)), f, rs, expect)
    f = method(d, KU, 'set_path_in_kmz')
    ip = EInterp(d.db, UCl(d))
    st = State()
    K = obj(st, 'KU', KU)
    old = getter(ip, st, KU, 'get_kmz_url', K)
    rs = ip.run(f, K, [('p', ip.tmp(st, T('newpath')))] if ip.ty(f['params'][0]['t']).get('ref') else [T('newpath')], st)

    def expect(q, s):
        if getter(ip, s, KU, 'get_path_in_kmz', K) != T('newpath'):
            return 'the path is not taken over'
        got = getter(ip, s, KU, 'get_url', K)
        want = mk_cat(mk_cat(old, S('/')), T('newpath'))
        return None if got == want else 'the address becomes %s' % pp(got)
    report(chk, 'U5', 'choosing the file of a KMZ', f, rs, expect)


HREFS = [x.replace('W', W) for x in ('http://W.com/W/W.kml', 'http://W.com:80/W.kml#W', 'http://W/W/W#W', 'https://W/', 'http://W/#W', '#W', 'W', 'W/W.kml', 'W.kml#W',
                                     '../W/W#W', './W', '/W/W', 'W W', '', 'a.kmz/b#c', 'ftp://W/#', 'W://W/a/b/c.png#1', 'file:///W/W', 'file:///W#W')]


def hsplit(t):
    h, _, frag = t.partition('#')
    sch, c, rest = h.partition('://')
    if c and sch:
        net, _, path = rest.partition('/')
    else:
        sch, net, path = '', '', h
    return {'scheme': sch, 'net_loc': net, 'path': path, 'fragment': frag}


def hrefs(chk, d):
    H = 'kmlengine::Href'
    cands = [d.db.functions[m] for m in d.db.records[H]['methods'] if d.db.functions[m]['kind'] == 'ctor' and len(d.db.functions[m]['params']) == 1
             and 'body' in d.db.functions[m] and 'Href' not in d.db.types[d.db.functions[m]['params'][0]['t']].get('n', '')]
    if len(cands) != 1:
        raise AnalysisBroken('Href constructors: %d' % len(cands))
    c = cands[0]
    for t in HREFS:
        ip = EInterp(d.db, UCl(d))
        st = State()
        O = ip.new_obj(st, H)
        st.assume(mk_nz(O), True)
        rs = ip.run(c, O, [('p', ip.tmp(st, S(t)))], st)
        h = hsplit(t)

        def expect(q, s):
            for k, w in h.items():
                got = getter(ip, s, H, 'get_' + k, O)
                if got == UNDEF:
                    got = S('')
                if got != S(w):
                    return 'the %s is %s instead of %s' % (k, vis(got), vis(S(w)))
                if q(mk_nz(getter(ip, s, H, 'has_' + k, O))) != bool(w):
                    return 'has_%s is wrong' % k
            rel = not h['scheme'] and not h['net_loc']
            for g, w in (('IsRelative', rel), ('IsRelativePath', rel and bool(h['path'])), ('IsFragmentOnly', rel and not h['path'] and bool(h['fragment']))):
                if q(mk_nz(getter(ip, s, H, g, O))) != w:
                    return '%s is wrong' % g
            return None
        report(chk, 'U6', 'reference "%s"' % vis(t), c, rs, expect)


class LCl(UCl):
    """a parse reports a given sequence of elements to its observers, then succeeds or fails"""
    script = ()

    def call(self, ip, st, fr, g, this, args, node):
        if g['qn'] == 'kmldom::Parser::Parse':
            key = [k for k, f in ip.all_fields('kmldom::Parser') if 'vector' in ip.ty(f['t']).get('n', '')]
            obs = ip.load(st, ('m', this, key[0]))
            v = models.valarg(ip, st, g, 0, args)
            self.ev(st, 'parse', v)
            if obs[0] != 'vec':
                raise AnalysisBroken('observers of the parse are not known')
            states = [st]
            for cb, a in self.script:
                for o in obs[1]:
                    nx = []
                    for x in states:
                        av = [('p', ip.tmp(x, e)) for e in a]
                        rs = ip.call_virtual(x, cb, x.cls.get(o), o, av)
                        for y, r in rs:
                            for z, b in ip.split(y, r, fr, node):
                                if b:
                                    nx.append(z)
                                else:
                                    self.ev(z, 'stopped')
                                    nx.append(z)
                    states = nx
            out = []
            for x in states:
                for y, b in ip.split(x, T('parsed'), fr, node):
                    if b:
                        y.assume(mk_nz(T('OBJ', 'ROOTEL')), True)
                    out.append((y, T('OBJ', 'ROOTEL') if b else ZERO))
            return out
        return super().call(ip, st, fr, g, this, args, node)


def el(d, ip, st, typ, i, text=None, alias=None):
    """an element of a type with its text"""
    base = 'kmldom::' + typ
    c = base if base in d.db.records else 'kmldom::Field'
    o = obj(st, '%s%d' % (typ, i), c)
    st.mem[('exact', o)] = ONE
    return o


def links(chk, d):
    tv = d.tval
    texts = [t for t in HREFS if t]

    def build(cl, ip, st, items):
        """items: (kind, parent type, text)"""
        script, want = [], []
        for i, (k, p, t) in enumerate(items):
            P = obj(st, 'P%d' % i, ELEM)
            C = obj(st, 'C%d' % i, 'kmldom::SchemaData' if k == 'SchemaData' else ELEM)
            cl.types[P], cl.types[C] = ('c', tv['Type_' + p]), ('c', tv['Type_' + k])
            cl.text[C] = t
            if k == 'SchemaData':
                for key, f in ip.all_fields('kmldom::SchemaData'):
                    sh = key.split('::')[-1]
                    if sh == 'schemaurl_':
                        st.mem[('m', C, key)] = S(t or '')
                    if sh == 'has_schemaurl_':
                        st.mem[('m', C, key)] = ONE if t is not None else ZERO
            script += [('NewElement', (C,)), ('AddChild', (P, C))]
            if (k == 'href' or k == 'styleUrl' or k == 'targetHref' and p == 'Alias' or k == 'SchemaData') and t is not None:
                want.append(t)
        return script, want

    class LC2(LCl):
        def __init__(self, d):
            super().__init__(d)
            self.types, self.text = {}, {}

        def call(self, ip, st, fr, g, this, args, node):
            if this in self.types:
                if g['n'] == 'Type' and not args:
                    return [(st, self.types[this])]
                if g['n'] == 'get_char_data' and not args:
                    return [(st, ('p', ip.tmp(st, S(self.text[this] or ''))))]
                if g['n'] == 'IsA' and len(args) == 1:
                    return [(st, ONE if args[0] == self.types[this] else ZERO)]
            return super().call(ip, st, fr, g, this, args, node)

        def cast(self, ip, st, fr, v, c, node):
            if v in self.types:
                k = [n for n, x in tv.items() if ('c', x) == self.types[v]][0][5:]
                cn = 'kmldom::' + k
                return [(st, v if cn in ip.db.records and ip.is_sub(cn, c) else ZERO)]
            return super().cast(ip, st, fr, v, c, node)
    kinds = [('href', 'Icon'), ('href', 'Link'), ('href', 'ItemIcon'), ('href', 'Url'), ('targetHref', 'Alias'), ('targetHref', 'Update'), ('sourceHref', 'Alias'), ('styleUrl', 'Placemark'),
             ('styleUrl', 'Pair'), ('name', 'Placemark'), ('SchemaData', 'ExtendedData'), ('description', 'Document'), ('Placemark', 'Document')]
    cases = [[(k, p, 'W' + k)] for k, p in kinds] + [[]]
    cases += [[('SchemaData', 'ExtendedData', None)]]
    cases += [[(k, p, 'W' + str(i)) for i, (k, p) in enumerate(kinds)]]
    cases += [[('href', 'Icon', t)] for t in texts]
    cases += [[('href', 'Icon', 'W/a'), ('href', 'Icon', 'http://W/b'), ('styleUrl', 'Placemark', '#W'), ('href', 'Link', 'W/a'), ('href', 'Link', 'W#x')]]
    for name in ('GetLinks', 'GetRelativeLinks'):
        f = fn(d, 'kmlengine::' + name)
        for items in cases:
            items = [(k, p, t if t is None else t.replace('W', W)) for k, p, t in items]
            for null in (0, 1):
                cl = LC2(d)
                ip = EInterp(d.db, cl)
                st = State()
                cl.script, want = build(cl, ip, st, items)
                if name == 'GetRelativeLinks':
                    want = [t for t in want if not hsplit(t)['scheme'] and hsplit(t)['path']]
                o = ip.tmp(st, ('vec', (S(OLD),)))
                rs = ip.run(f, None, [('p', ip.tmp(st, T('kml'))), ZERO if null else ('p', o)], st)

                def expect(q, s):
                    r = q(mk_nz(s.mem[('ret',)]))
                    e = released(s)
                    if e:
                        return e
                    ps = [e for e in s.trace if e[0] == 'parse']
                    if any(e[0] == 'stopped' for e in s.trace):
                        return 'the parse is stopped'
                    if null:
                        return 'succeeds without a list' if r else None
                    if ps != [('parse', T('kml'))]:
                        return 'the document is not parsed once'
                    if r != q(T('parsed')):
                        return '%s although the document is %s' % ('succeeds' if r else 'fails', 'bad' if r else 'good')
                    got = s.mem.get(o)
                    if not r:
                        return None
                    exp = ('vec', (S(OLD),) + tuple(S(t) for t in want))
                    return None if got == exp else 'lists %s instead of %s' % (vis(got), vis(exp))
                report(chk, 'U7', '%s of %s%s' % (name, ', '.join('%s/%s %s' % (p, k, vis(t or '-')) for k, p, t in items)[:120] or 'nothing', ', no list' if null else ''), f, rs, expect)


def run(chk, db):
    d = Dom(db)
    d.classes()
    chk.rule('U1', 'an address is made iff the text parses, and gives exactly the components of the text')
    chk.rule('U2', 'a conversion between file name and address succeeds iff the library does, into a buffer that is large enough, and gives its result')
    chk.rule('U3', 'splitting and normalising give the RFC 3986 result of the text, or fail and leave the output alone')
    chk.rule('U4', 'resolving gives the RFC 3986 result, or fails and leaves the output alone')
    chk.rule('U5', 'what to fetch is the address without fragment; the part before and after the first .kmz/ are archive and entry')
    chk.rule('U6', 'a reference is split at scheme://location/path#fragment and classified by its parts')
    chk.rule('U7', 'the references of a document are listed in order: every href, styleUrl, Alias targetHref and schemaUrl; the relative ones are those with a path and no scheme')
    for g in (components, conversions, functions, resolving, kmz, relative, hrefs, links):
        guard(chk, g.__name__, g, chk, d)
    return {}
