"""Web services: the requests that are sent, and what is made of the answers."""
from eng import *
from build import *
import harness, itertools
from harness import guard
from ids import getter
from kmz import S, method
from values import fns
from builders import BuCl, path, value, K
import values
from bounds import sym
from regionator import getter_at

C = 'kmlconvenience::'
HC = C + 'HttpClient'
AU = C + 'AtomUtil'
SERVICES = {
    'GoogleMapsData': ('GOOGLE_MAPS_DATA_SCOPE', 'http://maps.google.com', '/maps/feeds/maps/default/full', '2.0'),
    'GoogleDocList': ('GOOGLE_DOC_LIST_SCOPE', 'http://docs.google.com', '/feeds/default/private/full', '3.0'),
    'GooglePicasaWeb': ('GOOGLE_PICASA_WEB_SCOPE', 'http://picasaweb.google.com', '/data/feed/api/user/default', '2'),
    'GoogleSpreadsheets': ('GOOGLE_SPREADSHEETS_DATA_SCOPE', 'http://spreadsheets.google.com', '/feeds/spreadsheets/private/full', '3.0'),
}


class WCl(BuCl):
    """requests are recorded and answered; parsing an answer gives what the case says"""
    answers = ()        # per request: None = it fails, else the text of the answer
    parsed = {}         # text of an answer -> element
    env = None
    record = True

    def call(self, ip, st, fr, g, this, args, node):
        qn = g['qn']
        if self.record and qn == HC + '::SendRequest':
            k = len([e for e in st.trace if e[0] == 'request'])
            hd = args[2]
            hd = ZERO if hd == ZERO else ip.load(st, ip.deref_loc(hd))
            bd = args[3]
            bd = ZERO if bd == ZERO else ip.load(st, ip.deref_loc(bd))
            st.trace = st.trace + (('request', this, args[0], models.valarg(ip, st, g, 1, args), hd, bd, ONE if args[4] != ZERO else ZERO),)
            a = self.answers[k] if k < len(self.answers) else T('answer', ('c', k))
            if a is None:
                return [(st, ZERO)]
            if a[0] == 'broken off':
                if args[4] != ZERO:
                    ip.store(st, ip.deref_loc(args[4]), a[1], fr, node)
                return [(st, ZERO)]
            if args[4] != ZERO:
                l = ip.deref_loc(args[4])
                old = ip.load(st, l)
                ip.store(st, l, a if old == S('') else mk_cat(old, a), fr, node)
            return [(st, ONE)]
        if qn == 'kmldom::ParseAtom':
            x = models.valarg(ip, st, g, 0, args)
            if x not in self.parsed:
                raise AnalysisBroken('something else is parsed: %s' % pp(x)[:80])
            return [(st, self.parsed[x])]
        if qn in ('getenv', 'secure_getenv', 'std::getenv'):
            n = models.valarg(ip, st, g, 0, args)
            st.trace = st.trace + (('env', n),)
            return [(st, S(self.env[1]) if self.env and n == S(self.env[0]) else ZERO)]
        if qn == 'kmlengine::KmlFile::CreateFromImport':
            o = models.valarg(ip, st, g, 0, args)
            if o == ZERO:
                return [(st, ZERO)]
            kf = obj(st, 'KF%d' % len(st.trace), 'kmlengine::KmlFile')
            st.mem[('imported', kf)] = o
            st.trace = st.trace + (('import', kf, o),)
            return [(st, kf)]
        if qn == 'kmlengine::KmlFile::SerializeToString' and ('imported', this) in st.mem:
            o = st.mem[('imported', this)]
            st.trace = st.trace + (('written', o) + tuple(self.written(ip, st, o)),)
            if args[0] != ZERO:
                ip.store(st, ip.deref_loc(args[0]), T('xml', o), fr, node)
            return [(st, ONE)]
        if qn == 'kmlengine::GetElementsById' and self.found is not None:
            st.trace = st.trace + (('search', models.valarg(ip, st, g, 0, args), args[1]),)
            l = ip.deref_loc(args[2])
            cur = ip.load(st, l)
            ip.store(st, l, ('vec', cur[1] + tuple(self.found)), fr, node)
            return [(st, VOID)]
        return super().call(ip, st, fr, g, this, args, node)
    found = None

    def written(self, ip, st, o):
        r = []
        for n in ('title', 'summary', 'content'):
            h = getter(ip, st, st.cls[o], 'has_' + n, o)
            r.append(getter(ip, st, st.cls[o], 'get_' + n, o) if mk_nz(h) == ONE else VOID)
        c = r[2]
        if c in st.cls:
            k = getter(ip, st, st.cls[c], 'get_misplaced_elements_array_size', c)
            r += [getter(ip, st, st.cls[c], 'get_type', c)] + [getter_at(ip, st, st.cls[c], 'get_misplaced_elements_array_at', c, i) for i in range(k[1])]
        return r


def report(chk, rule, key, f, rs, expect, ip):
    values.report(chk, rule, key, f, rs, expect, ip)


def enum(d, name):
    return [('c', v) for q, e in d.db.enums.items() for n, v in e['e'] if n == name][0]


def pairs(v):
    if v == ZERO:
        return []
    if v[0] != 'vec' or any(x[0] != 'pair' for x in v[1]):
        raise AnalysisBroken('the headers are unknown: %s' % pp(v)[:80])
    return [(x[1], x[2]) for x in v[1]]


def client(d, ip, st, name='CLIENT'):
    o = obj(st, name, HC)
    return single(ip.run(ctor(d, HC, 1), o, [('p', ip.tmp(st, T('app')))], st), 'HttpClient')[0], o


def headers(ip, s, o):
    return pairs(getter(ip, s, HC, 'get_headers', o))


def A(ip, st, f, args):
    """arguments, by reference where the parameter is one"""
    out = []
    for p, x in zip(f['params'], args):
        t = ip.ty(p['t'])
        out.append(('p', ip.tmp(st, x)) if t.get('ref') and not (x[0] == 'p' and x[1] in st.cls) and x not in st.cls or t.get('ref') and 'intrusive_ptr' in t.get('s', '') + t.get('n', '') else x)
    return out


def cat(*xs):
    r = xs[0]
    for x in xs[1:]:
        r = mk_cat(r, x)
    return r


def http(chk, d):
    agent = (S('User-Agent'), cat(T('app'), S(' GData-C++/1.0')))
    GET, POST = enum(d, 'HTTP_GET'), enum(d, 'HTTP_POST')
    ip = EInterp(d.db, WCl())
    st, o = client(d, ip, State())
    f = method(d, HC, 'AddHeader', 2)
    s1 = single(ip.run(f, o, [('p', ip.tmp(st, T('n1'))), ('p', ip.tmp(st, T('v1')))], st), 'AddHeader')[0]
    rs = ip.run(f, o, [('p', ip.tmp(s1, T('n2'))), ('p', ip.tmp(s1, T('v2')))], s1)
    want = [agent, (T('n1'), T('v1')), (T('n2'), T('v2'))]
    report(chk, 'W1', 'headers of every request', f, rs, lambda q, s: None if headers(ip, s, o) == want else 'the headers are %s' % [(pp(a), pp(b)) for a, b in headers(ip, s, o)], ip)
    # lists of headers
    lst = [(S('a'), T('1')), (S('b'), T('2')), (S('a'), T('3')), (S('B'), T('4')), (S('ab'), T('5'))]
    V = lambda xs: ('vec', tuple(('pair', a, b) for a, b in xs))
    f = method(d, HC, 'FindHeader')
    for n in range(len(lst) + 1):
        for key in ('a', 'b', 'B', 'c', ''):
            for null in (0, 1):
                ip = EInterp(d.db, WCl())
                st = State()
                out = ip.tmp(st, T('old'))
                rs = ip.run(f, None, [('p', ip.tmp(st, S(key))), ('p', ip.tmp(st, V(lst[:n]))), ZERO if null else ('p', out)], st)
                hit = [v for k, v in lst[:n] if k == S(key)]

                def expect(q, s):
                    if q(mk_nz(s.mem[('ret',)])) != bool(hit):
                        return 'is%s found' % (' not' if hit else '')
                    v = ip.load(s, out)
                    return None if v == (hit[0] if hit and not null else T('old')) else 'the value is %s' % pp(v)
                report(chk, 'W1', 'FindHeader %r among %d%s' % (key, n, ', not stored' if null else ''), f, rs, expect, ip)
    for name, old in itertools.product(('PushHeader', 'AppendHeaders'), (None, 0, 1, 2)):
        f = method(d, HC, name)
        for n in (0, 1, 3):
            ip = EInterp(d.db, WCl())
            st = State()
            out = ip.tmp(st, V(lst[3:3 + (old or 0)]))
            dst = ZERO if old is None else ('p', out)
            src = [('p', ip.tmp(st, T('n'))), ('p', ip.tmp(st, T('v')))] if name == 'PushHeader' else [('p', ip.tmp(st, V(lst[:n])))]
            rs = ip.run(f, None, src + [dst], st)
            w = lst[3:3 + (old or 0)] + ([] if old is None else [(T('n'), T('v'))] if name == 'PushHeader' else lst[:n])
            report(chk, 'W1', '%s %d to %s' % (name, n, old), f, rs, lambda q, s: None if pairs(ip.load(s, out)) == w else 'the headers are %s' % [(pp(a), pp(b)) for a, b in pairs(ip.load(s, out))], ip)
    f = method(d, HC, 'FormatHeader')
    ip = EInterp(d.db, WCl())
    st = State()
    rs = ip.run(f, None, [('p', ip.tmp(st, ('pair', T('n'), T('v'))))], st)
    report(chk, 'W1', 'FormatHeader', f, rs, lambda q, s: None if value(ip, s, s.mem[('ret',)]) == cat(T('n'), S(': '), T('v')) else 'is %s' % pp(value(ip, s, s.mem[('ret',)])), ip)
    # the default request
    f = method(d, HC, 'SendRequest')
    names = {n: v for q, e in d.db.enums.items() for n, v in e['e'] if n.startswith('HTTP_') and n != 'HTTP_NONE'}
    for n, mine in itertools.product(sorted(names), (None, 0, 2)):
        cl = WCl()
        cl.record = False
        ip = EInterp(d.db, cl)
        st, o = client(d, ip, State())
        out = ip.tmp(st, S(''))
        rs = ip.run(f, o, [('c', names[n]), ('p', ip.tmp(st, T('uri'))), ZERO if mine is None else ('p', ip.tmp(st, V(lst[:mine]))), ZERO, ('p', out)], st)
        w = cat(S(n[5:] + ' '), T('uri'), S('\n'), *[x for a, b in [agent] + lst[:mine or 0] for x in (a, S(': '), b, S('\n'))])
        report(chk, 'W1', 'SendRequest %s with %s headers' % (n, mine), f, rs, lambda q, s: None if q(mk_nz(s.mem[('ret',)])) and ip.load(s, out) == w else 'the request is %s' % pp(ip.load(s, out)), ip)
    for n, null in itertools.product(('HTTP_NONE', 'HTTP_GET'), (0, 1)):
        cl = WCl()
        cl.record = False
        ip = EInterp(d.db, cl)
        st, o = client(d, ip, State())
        out = ip.tmp(st, S(''))
        rs = ip.run(f, o, [enum(d, n), ('p', ip.tmp(st, T('uri'))), ZERO, ZERO, ZERO if null else ('p', out)], st)

        def expect(q, s):
            if any(e[0] == 'nothing' for e in s.trace) or s.mem.get(('nulltext',)):
                return 'text that is not there is used'
            if q(mk_nz(s.mem[('ret',)])) != (n != 'HTTP_NONE'):
                return 'succeeds' if n == 'HTTP_NONE' else 'fails'
            return None if null or n != 'HTTP_NONE' or ip.load(s, out) == S('') else 'the request is %s' % pp(ip.load(s, out))
        report(chk, 'W1', 'SendRequest %s%s' % (n, ', no place for the answer' if null else ''), f, rs, expect, ip)
    f = method(d, HC, 'FetchUrl', 2)
    for ok in (0, 1):
        cl = WCl()
        cl.answers = (T('A') if ok else None,)
        ip = EInterp(d.db, cl)
        st, o = client(d, ip, State())
        out = ip.tmp(st, S(''))
        rs = ip.run(f, o, [('p', ip.tmp(st, T('uri'))), ('p', out)], st)

        def expect(q, s):
            if [e[1:] for e in s.trace if e[0] == 'request'] != [(o, GET, T('uri'), ZERO, ZERO, ONE)]:
                return 'another request is sent'
            if q(mk_nz(s.mem[('ret',)])) != bool(ok):
                return 'a failure is hidden' if not ok else 'fails'
            return None if ip.load(s, out) == (T('A') if ok else S('')) else 'the answer is lost'
        report(chk, 'W1', 'FetchUrl%s' % ('' if ok else ', failing'), f, rs, expect, ip)
    # login
    f = method(d, HC, 'Login', 3)
    for ans, tok in ((None, None), (('broken off', 'Auth=tok\n'), None), ('', None), ('Error=Bad\n', None), ('Auth=tok\n', 'tok'), ('SID=1\nLSID=2\nAuth=t.o-k\n', 't.o-k'), ('SID=Auth\nAuth=x\n', 'x')):
        cl = WCl()
        cl.answers = (None if ans is None else S(ans) if isinstance(ans, str) else (ans[0], S(ans[1])),)
        ip = EInterp(d.db, cl)
        st, o = client(d, ip, State())
        rs = ip.run(f, o, [('p', ip.tmp(st, T(x))) for x in ('service', 'email', 'password')], st)
        body = cat(S('Email='), T('email'), S('&Passwd='), T('password'), S('&accountType=HOSTED_OR_GOOGLE&source='), T('app'), S('&service='), T('service'))

        def expect(q, s):
            ev = [e[1:] for e in s.trace if e[0] == 'request']
            if len(ev) != 1 or ev[0][1] != POST or ev[0][2] != S('https://www.google.com/accounts/ClientLogin') or ev[0][4] != body:
                return 'another request is sent'
            if q(mk_nz(s.mem[('ret',)])) != (tok is not None):
                return 'succeeds without a token' if tok is None else 'fails although there is a token'
            h = headers(ip, s, o)
            w = [agent] + ([(S('Authorization'), S('GoogleLogin auth=' + tok))] if tok else [])
            if h != w:
                return 'the headers afterwards are %s' % [(pp(a), pp(b)) for a, b in h]
            t = getter(ip, s, HC, 'get_auth_token', o)
            return None if t == S(tok or '') else 'the token is %s' % pp(t)
        report(chk, 'W1', 'Login answered %r' % (ans,), f, rs, expect, ip)


def service(d, ip, st, name, env=None):
    cl = ip.client
    cl.env = (SERVICES[name][0], env) if env else None
    st, c = client(d, ip, st)
    st, sv = single(ip.run(method(d, C + name, 'Create', 1), None, [c], st), 'Create')
    return st, c, sv


def services(chk, d):
    GET, POST = enum(d, 'HTTP_GET'), enum(d, 'HTTP_POST')
    for name, (var, scope, meta, ver) in sorted(SERVICES.items()):
        f = method(d, C + name, 'Create', 1)
        ip = EInterp(d.db, WCl())
        rs = ip.run(f, None, [ZERO], State())
        report(chk, 'W2', '%s without a client' % name, f, rs, lambda q, s: None if s.mem[('ret',)] == ZERO else 'is created', ip)
        for env in (None, 'http://here'):
            def make(answers=(), parsed={}):
                cl = WCl()
                cl.answers, cl.parsed = answers, parsed
                ip = EInterp(d.db, cl)
                return ip, service(d, ip, State(), name, env)
            w = env or scope
            ip, (st, c, sv) = make()
            ok = sv != ZERO and st.cls.get(sv) == C + name
            hs = headers(ip, st, c)
            key = '%s%s' % (name, ' elsewhere' if env else '')
            (chk.ok if ok and hs[1:] == [(S('GData-Version'), S(ver))] else lambda *a: chk.bad(*a, where(f), 'its client has the headers %s' % [(pp(a), pp(b)) for a, b in hs[1:]]))('W2', key)
            if not ok:
                continue
            for n in ('get_scope',):
                v = getter(ip, st, C + name, n, sv)
                (chk.ok if v == S(w) else lambda *a: chk.bad(*a, where(f), 'is %s' % pp(v)))('W2', '%s of %s' % (n, key))
            g = method(d, C + name, 'GetMetaFeedXml', 1)
            for okk in (0, 1):
                ip, (st, c, sv) = make((T('F') if okk else None,))
                out = ip.tmp(st, S(''))
                rs = ip.run(g, sv, [('p', out)], st)

                def expect(q, s):
                    if [e[1:] for e in s.trace if e[0] == 'request'] != [(c, GET, S(w + meta), ZERO, ZERO, ONE)]:
                        return 'another request is sent'
                    return None if q(mk_nz(s.mem[('ret',)])) == bool(okk) and ip.load(s, out) == (T('F') if okk else S('')) else 'the answer is lost or a failure hidden'
                report(chk, 'W2', 'GetMetaFeedXml of %s%s' % (key, '' if okk else ', failing'), g, rs, expect, ip)
            g = method(d, C + name, 'GetMetaFeed', 0)
            for kind in ('fails', 'feed', 'entry', 'garbage'):
                ip, (st, c, sv) = make((None if kind == 'fails' else T('F'),))
                el = ZERO
                if kind in ('feed', 'entry'):
                    st, el = element(d, ip, st, 'AtomFeed' if kind == 'feed' else 'AtomEntry', 'EL')
                ip.client.parsed = {T('F'): el}
                rs = ip.run(g, sv, [], st)

                def expect(q, s):
                    if [e[1:] for e in s.trace if e[0] == 'request'] != [(c, GET, S(w + meta), ZERO, ZERO, ONE)]:
                        return 'another request is sent'
                    return None if value(ip, s, s.mem[('ret',)]) == (el if kind == 'feed' else ZERO) else 'gives %s' % pp(value(ip, s, s.mem[('ret',)]))
                report(chk, 'W2', 'GetMetaFeed of %s: %s' % (key, kind), g, rs, expect, ip)
    # uploads and downloads
    for env, okk in itertools.product((None, 'http://here'), (0, 1)):
        cl = WCl()
        cl.answers = (T('R') if okk else None,)
        ip = EInterp(d.db, cl)
        st, c, sv = service(d, ip, State(), 'GoogleDocList', env)
        f = method(d, C + 'GoogleDocList', 'UploadSpreadsheet', 3)
        out = ip.tmp(st, S(''))
        rs = ip.run(f, sv, A(ip, st, f, [T('data'), T('mime')]) + [('p', out)], st)
        w = (env or SERVICES['GoogleDocList'][1]) + SERVICES['GoogleDocList'][2]

        def expect(q, s):
            ev = [e[1:] for e in s.trace if e[0] == 'request']
            if len(ev) != 1 or ev[0][:3] != (c, POST, S(w)) or pairs(ev[0][3]) != [(S('Content-Type'), T('mime'))] or ev[0][4] != T('data'):
                return 'another request is sent'
            return None if q(mk_nz(s.mem[('ret',)])) == bool(okk) and ip.load(s, out) == (T('R') if okk else S('')) else 'the answer is lost or a failure hidden'
        report(chk, 'W2', 'UploadSpreadsheet%s%s' % (' elsewhere' if env else '', '' if okk else ', failing'), f, rs, expect, ip)
        cl = WCl()
        cl.answers = (T('R') if okk else None,)
        for uns in ([], ['<ns|resourceId>r:1</ns|resourceId>\n'], ['<ns|other>x</ns|other>\n', '<ns|resourceId>r2</ns|resourceId>\n', '<ns|resourceId>r3</ns|resourceId>\n'], ['<resourceId>r</resourceId>'], ['<ns|resourceIdx>r</ns|resourceIdx>'], ['<ns|resourceId></ns|resourceId>\n'], ['<ns|resourceId', '<a|resourceId>zz']):
            ip = EInterp(d.db, cl)
            st, c, sv = service(d, ip, State(), 'GoogleSpreadsheets', env)
            st, e = element(d, ip, st, 'AtomEntry', 'E')
            au = method(d, K + 'Element', 'AddUnknownElement', 1)
            for u in uns:
                st = single(ip.run(au, e, [('p', ip.tmp(st, S(u)))], st), 'AddUnknownElement')[0]
            f = method(d, C + 'GoogleSpreadsheets', 'DownloadSpreadsheet', 3)
            out = ip.tmp(st, S(''))
            rs = ip.run(f, sv, A(ip, st, f, [e, T('fmt')]) + [('p', out)], st)
            ids_ = [u[u.index('|') + 12:u.index('</')] for u in uns if '|resourceId>' in u and '</' in u]
            w = cat(S((env or SERVICES['GoogleSpreadsheets'][1]) + '/feeds/download/spreadsheets/Export?key=' + (ids_ or [''])[0] + '&exportFormat='), T('fmt'))

            def expect(q, s):
                ev = [e[1:] for e in s.trace if e[0] == 'request']
                if not ids_:
                    return None if not ev and not q(mk_nz(s.mem[('ret',)])) else 'a request is sent without an id'
                if ev != [(c, GET, w, ZERO, ZERO, ONE)]:
                    return 'another request is sent: %s' % [pp(e[2]) for e in ev]
                return None if q(mk_nz(s.mem[('ret',)])) == bool(okk) and ip.load(s, out) == (T('R') if okk else S('')) else 'the answer is lost or a failure hidden'
            report(chk, 'W2', 'DownloadSpreadsheet of %s%s%s' % (uns, ' elsewhere' if env else '', '' if okk else ', failing'), f, rs, expect, ip)


def feed_of(d, ip, st, name, kinds, nxt=None):
    """a feed with one entry per kind; -> state, feed, features"""
    es, fs = [], []
    for i, k in enumerate(kinds):
        calls = []
        if k != 'no content':
            st, c = element(d, ip, st, 'AtomContent', '%sC%d' % (name, i))
            more, k = k.endswith('+'), k.rstrip('+')
            if k in ('Placemark', 'Folder', 'Point'):
                st, p = element(d, ip, st, k, '%sP%d' % (name, i), *([('set_name', T('nm', S(name), ('c', i)))] if k != 'Point' else []))
                st = single(ip.run(method(d, K + 'Element', 'AddElement', 1), c, [('p', ip.tmp(st, p))], st), 'AddElement')[0]
                if k != 'Point':
                    fs.append((K + k, T('nm', S(name), ('c', i))))
                if more:
                    st, p = element(d, ip, st, 'Point', '%sX%d' % (name, i))
                    st = single(ip.run(method(d, K + 'Element', 'AddElement', 1), c, [('p', ip.tmp(st, p))], st), 'AddElement')[0]
            calls.append(('set_content', c))
        st, o = element(d, ip, st, 'AtomEntry', '%sE%d' % (name, i), *calls)
        es.append(o)
    calls = [('add_entry', o) for o in es]
    if nxt is not None:
        st, l = element(d, ip, st, 'AtomLink', name + 'L', ('set_rel', S('next')), ('set_href', nxt))
        calls.append(('add_link', l))
    st, fd = element(d, ip, st, 'AtomFeed', name, *calls)
    return st, fd, fs


def features_in(ip, s, o):
    k = getter(ip, s, s.cls[o], 'get_feature_array_size', o)
    r = []
    for i in range(k[1]):
        g = getter_at(ip, s, s.cls[o], 'get_feature_array_at', o, i)
        r.append((s.cls.get(g), getter(ip, s, s.cls[g], 'get_name', g)))
    return r


def maps(chk, d):
    GET, POST = enum(d, 'HTTP_GET'), enum(d, 'HTTP_POST')
    MD = C + 'GoogleMapsData'
    ATOM = S('application/atom+xml')
    KML = S('application/vnd.google-earth.kml+xml')
    base = SERVICES['GoogleMapsData'][1] + SERVICES['GoogleMapsData'][2]

    def make(answers=()):
        cl = WCl()
        cl.answers = answers
        ip = EInterp(d.db, cl)
        st, c, sv = service(d, ip, State(), 'GoogleMapsData')
        return ip, st, c, sv
    # addresses in an entry
    for kind in ('none', 'no content', 'no src', 'src'):
        for src in ('http://h/a/full', 'http://h/', '/x', 'nothing', '') if kind == 'src' else ('',):
            for n, null in itertools.product(('GetFeatureFeedUri', 'GetSearchFeedUri'), (0, 1)):
                ip, st, c, sv = make()
                calls = []
                if kind in ('no src', 'src'):
                    st, ct = element(d, ip, st, 'AtomContent', 'C', *([('set_src', S(src))] if kind == 'src' else []))
                    calls = [('set_content', ct)]
                st, e = element(d, ip, st, 'AtomEntry', 'E', *calls)
                f = method(d, MD, n, 2)
                out = ip.tmp(st, T('old'))
                rs = ip.run(f, None, A(ip, st, f, [ZERO if kind == 'none' else e]) + [ZERO if null else ('p', out)], st)
                w = None if kind != 'src' else src if n == 'GetFeatureFeedUri' else src[:src.rindex('/') + 1] + 'snippet' if '/' in src else None

                def expect(q, s):
                    if q(mk_nz(s.mem[('ret',)])) != (w is not None):
                        return 'says %s' % (w is None)
                    v = ip.load(s, out)
                    return None if v == (S(w) if w is not None and not null else T('old')) else 'the address is %s' % pp(v)
                report(chk, 'W3', '%s of %s%s%s' % (n, kind, ' ' + src if kind == 'src' else '', ', not stored' if null else ''), f, rs, expect, ip)
    f = method(d, MD, 'GetKmlUri', 2)
    for ls, null in itertools.product((None, [], ['self'], ['alternate'], ['self', 'alternate', 'alternate']), (0, 1)):
        ip, st, c, sv = make()
        calls = []
        for i, r in enumerate(ls or []):
            st, l = element(d, ip, st, 'AtomLink', 'L%d' % i, ('set_rel', S(r)), ('set_href', T('h', ('c', i))))
            calls.append(('add_link', l))
        st, e = element(d, ip, st, 'AtomEntry', 'E', *calls)
        out = ip.tmp(st, T('old'))
        rs = ip.run(f, None, A(ip, st, f, [ZERO if ls is None else e]) + [ZERO if null else ('p', out)], st)
        w = cat(T('h', ('c', ls.index('alternate'))), S('&output=kml')) if ls and 'alternate' in ls else None

        def expect(q, s):
            if q(mk_nz(s.mem[('ret',)])) != (w is not None):
                return 'says %s' % (w is None)
            v = ip.load(s, out)
            return None if v == (w if w is not None and not null else T('old')) else 'the address is %s' % pp(v)
        report(chk, 'W3', 'GetKmlUri of %s%s' % (ls, ', not stored' if null else ''), f, rs, expect, ip)
    # feeds
    f = method(d, MD, 'GetFeatureFeedByUri', 1)
    for kind in ('fails', 'feed', 'entry', 'garbage'):
        for cls, fn in ((MD, f), (AU, method(d, AU, 'GetAndParseFeed', 2))):
            ip, st, c, sv = make((None if kind == 'fails' else T('F'),))
            el = ZERO
            if kind in ('feed', 'entry'):
                st, el = element(d, ip, st, 'AtomFeed' if kind == 'feed' else 'AtomEntry', 'EL')
            ip.client.parsed = {T('F'): el}
            a = [('p', ip.tmp(st, T('uri')))] + ([c] if cls == AU else [])
            rs = ip.run(fn, sv if cls == MD else None, a, st)

            def expect(q, s):
                if [e[1:] for e in s.trace if e[0] == 'request'] != [(c, GET, T('uri'), ZERO, ZERO, ONE)]:
                    return 'another request is sent'
                return None if value(ip, s, s.mem[('ret',)]) == (el if kind == 'feed' else ZERO) else 'gives something else'
            report(chk, 'W3', '%s: %s' % (fn['n'], kind), fn, rs, expect, ip)
    f = method(d, MD, 'GetMapKml', 2)
    KD = ('Placemark', 'Folder', 'Point', 'empty', 'no content', 'Placemark+')
    for n in range(4):
        for kinds in itertools.product(KD if n < 3 else KD[::2], repeat=n):
            ip, st, c, sv = make()
            st, fd, fs = feed_of(d, ip, st, 'F', kinds)
            st, fo = element(d, ip, st, 'Folder', 'FOLDER')
            rs = ip.run(f, None, A(ip, st, f, [fd, fo]), st)

            def expect(q, s):
                if s.mem[('ret',)] != ('c', len(fs)):
                    return 'says there are %s features instead of %d' % (pp(s.mem[('ret',)]), len(fs))
                if features_in(ip, s, fo) != fs:
                    return 'the container does not get every feature of the feed in order'
                if n == 1:
                    # the feed still has them: a second container gets them as well
                    s2 = s.copy()
                    s2, f2 = element(d, ip, s2, 'Folder', 'FOLDER2')
                    for s3, _ in ip.run(f, None, A(ip, s2, f, [fd, f2]), s2):
                        if features_in(ip, s3, f2) != fs:
                            return 'the feed has lost its features'
                return None
            report(chk, 'W3', 'GetMapKml of %s' % ', '.join(kinds), f, rs, expect, ip)
    for a, b in ((0, 1), (1, 0), (0, 0)):
        ip, st, c, sv = make()
        st, fd, fs = feed_of(d, ip, st, 'F', ('Placemark',))
        st, fo = element(d, ip, st, 'Folder', 'FOLDER')
        rs = ip.run(f, None, A(ip, st, f, [fd if a else ZERO, fo if b else ZERO]), st)
        report(chk, 'W3', 'GetMapKml without %s' % (('feed', 'container')[a] if a + b else 'both'), f, rs, lambda q, s: None if s.mem[('ret',)] == ('c', -1) and features_in(ip, s, fo) == [] else 'does not say so', ip)
    f = method(d, MD, 'CreateDocumentOfMapFeatures', 1)
    for chain in ([('Placemark',)], [('Placemark', 'Folder'), ('Placemark',)], [(), ('Placemark',)], [('Placemark',), (), ('Folder', 'empty')], [('Placemark',), 'fails'], [('Placemark',), 'garbage'], None):
        ip, st, c, sv = make()
        feeds, want, ans = [], [], []
        n = len(chain or [])
        for i, kinds in enumerate(chain or []):
            if isinstance(kinds, str):
                feeds.append(ZERO)
                continue
            st, fd, fs = feed_of(d, ip, st, 'F%d' % i, kinds, T('next', ('c', i)) if i + 1 < n else None)
            feeds.append(fd)
            want += fs
        ip.client.answers = tuple(None if x == 'fails' else T('page', ('c', i)) for i, x in enumerate(chain or [()]))[1:]
        ip.client.parsed = {T('page', ('c', i)): x for i, x in enumerate(feeds)}
        rs = ip.run(f, sv, A(ip, st, f, [feeds[0] if chain else ZERO]), st)

        def expect(q, s):
            r = value(ip, s, s.mem[('ret',)])
            if chain is None:
                return None if r == ZERO else 'there is a document without a feed'
            if s.cls.get(r) != K + 'Document':
                return 'there is no document'
            if [e[3] for e in s.trace if e[0] == 'request'] != [T('next', ('c', i)) for i in range(n - 1)]:
                return 'other pages are requested'
            return None if features_in(ip, s, r) == want else 'the document does not hold every feature of every page in order'
        report(chk, 'W3', 'CreateDocumentOfMapFeatures of %s' % (chain,), f, rs, expect, ip)
    # posting
    f = method(d, MD, 'CreateMap', 3)
    for okk in (0, 1):
        ip, st, c, sv = make((T('R') if okk else None,))
        out = ip.tmp(st, S(''))
        rs = ip.run(f, sv, A(ip, st, f, [T('t'), T('s')]) + [('p', out)], st)

        def expect(q, s):
            ev = [e[1:] for e in s.trace if e[0] == 'request']
            im = [e[2] for e in s.trace if e[0] == 'import']
            wr = [e[1:] for e in s.trace if e[0] == 'written']
            if len(ev) != 1 or ev[0][:3] != (c, POST, S(base)) or pairs(ev[0][3]) != [(S('Content-Type'), ATOM)]:
                return 'another request is sent'
            if len(wr) != 1 or s.cls.get(wr[0][0]) != K + 'AtomEntry' or wr[0][1:3] != (T('t'), T('s')) or ev[0][4] != T('xml', wr[0][0]):
                return 'the entry does not have the title and the summary'
            return None if q(mk_nz(s.mem[('ret',)])) == bool(okk) and ip.load(s, out) == (T('R') if okk else S('')) else 'the answer is lost or a failure hidden'
        report(chk, 'W3', 'CreateMap%s' % ('' if okk else ', failing'), f, rs, expect, ip)
    f = method(d, MD, 'AddFeature', 3)
    for okk, null in itertools.product((0, 1), (0, 1)):
        ip, st, c, sv = make((T('R') if okk else None,))
        st, p = element(d, ip, st, 'Placemark', 'P', ('set_name', T('n')), ('set_description', T('ds')))
        out = ip.tmp(st, S(''))
        rs = ip.run(f, sv, A(ip, st, f, [T('uri'), p]) + [ZERO if null else ('p', out)], st)

        def expect(q, s):
            ev = [e[1:] for e in s.trace if e[0] == 'request']
            wr = [e[1:] for e in s.trace if e[0] == 'written']
            if len(ev) != 1 or ev[0][:3] != (c, POST, T('uri')) or pairs(ev[0][3]) != [(S('Content-Type'), ATOM)]:
                return 'another request is sent'
            if len(wr) != 1 or ev[0][4] != T('xml', wr[0][0]) or wr[0][1:3] != (T('n'), T('ds')) or wr[0][4:] != (KML, p):
                return 'the entry does not hold the feature with its name and description'
            return None if q(mk_nz(s.mem[('ret',)])) == bool(okk) and ip.load(s, out) == (T('R') if okk and not null else S('')) else 'the answer is lost or a failure hidden'
        report(chk, 'W3', 'AddFeature%s%s' % ('' if okk else ', failing', ', answer not stored' if null else ''), f, rs, expect, ip)
    f = method(d, MD, 'PostPlacemarks', 2)
    PT = [('c', v) for q, e in d.db.enums.items() for n, v in e['e'] if n == 'Type_Placemark'][0]
    for root in ('Placemark', 'Folder'):
        for n in range(4) if root == 'Folder' else (0,):
            for kinds in itertools.product(('geo', 'bare', 'fails'), repeat=n) if root == 'Folder' else (('geo',), ('fails',)):
                ip, st, c, sv = make()
                ps = []
                for i, k in enumerate(kinds):
                    calls = [('set_name', T('n', ('c', i)))]
                    if k != 'bare':
                        st, g = element(d, ip, st, 'Point', 'G%d' % i)
                        calls.append(('set_geometry', g))
                    st, p = element(d, ip, st, 'Placemark', 'P%d' % i, *calls)
                    ps.append(p)
                if root == 'Folder':
                    st, ro = element(d, ip, st, 'Folder', 'ROOT', *[('add_feature', p) for p in ps])
                    ip.client.found = ps
                else:
                    ro = ps[0]
                ip.client.answers = tuple(None if k == 'fails' else T('R') for k in kinds if k != 'bare')
                rs = ip.run(f, sv, A(ip, st, f, [ro, T('uri')]), st)

                def expect(q, s):
                    wr = [e[1:] for e in s.trace if e[0] == 'written']
                    ev = [e[1:] for e in s.trace if e[0] == 'request']
                    if [w[5:] for w in wr] != [(p,) for p, k in zip(ps, kinds) if k != 'bare'] or [e[2] for e in ev] != [T('uri')] * len(wr):
                        return 'not every placemark with a geometry is posted once to the address'
                    if root == 'Folder' and [e[1:] for e in s.trace if e[0] == 'search'] != [(ro, PT)]:
                        return 'something else is searched for'
                    return None if s.mem[('ret',)] == ('c', list(kinds).count('geo')) else 'says %s were posted' % pp(s.mem[('ret',)])
                report(chk, 'W3', 'PostPlacemarks of a %s: %s' % (root, ', '.join(kinds)), f, rs, expect, ip)
    # searching
    f = method(d, MD, 'GetSearchFeed', 3)
    for okk in (0, 1):
        ip, st, c, sv = make((T('R') if okk else None,))
        out = ip.tmp(st, S(''))
        rs = ip.run(f, sv, A(ip, st, f, [T('u'), T('p')]) + [('p', out)], st)
        report(chk, 'W3', 'GetSearchFeed%s' % ('' if okk else ', failing'), f, rs, lambda q, s: None if [e[1:] for e in s.trace if e[0] == 'request'] == [(c, GET, cat(T('u'), S('?'), T('p')), ZERO, ZERO, ONE)] and q(mk_nz(s.mem[('ret',)])) == bool(okk) and ip.load(s, out) == (T('R') if okk else S('')) else 'another request is sent or the answer is lost', ip)
    ts = lambda n: T('tostr', S('double'), sym(n))
    f = method(d, MD, 'AppendBoxParameter')
    ip, st, c, sv = make()
    for old in (S(''), T('q')):
        out = ip.tmp(st, old)
        rs = ip.run(f, None, [sym(n) for n in ('north', 'south', 'east', 'west')] + [('p', out)], st.copy())

        def box(v):
            import textfold
            return v
        got = []

        def expect(q, s):
            v = ip.load(s, out)
            parts = flat(v)
            names = [x for x in parts if x[0] != 's']
            lits = ''.join(x[1] if x[0] == 's' else '%' for x in parts)
            pre = '' if old == S('') else '%'
            nums = names[len(pre):]
            if lits != pre + 'box=%,%,%,%':
                return 'the parameter is %s' % pp(v)
            return None if [number(x) for x in nums] == [sym(n) for n in ('west', 'south', 'east', 'north')] else 'the sides are %s' % ', '.join(pp(x) for x in nums)
        report(chk, 'W3', 'AppendBoxParameter to %s' % pp(old), f, rs, expect, ip)
    f = method(d, MD, 'SearchMapByBbox', 2)
    for kind in ('no entry', 'no src', 'fails', 'feed', 'entry', 'garbage'):
        ip, st, c, sv = make((None if kind == 'fails' else T('F'),))
        calls = []
        if kind != 'no entry':
            st, ct = element(d, ip, st, 'AtomContent', 'C', *([('set_src', S('http://h/a/full'))] if kind != 'no src' else []))
            calls = [('set_content', ct)]
        st, e = element(d, ip, st, 'AtomEntry', 'E', *calls)
        el = ZERO
        if kind in ('feed', 'entry'):
            st, el = element(d, ip, st, 'AtomFeed' if kind == 'feed' else 'AtomEntry', 'EL')
        ip.client.parsed = {T('F'): el}
        st, bb = value_object(d, ip, st, 'kmlengine::Bbox', 'BB', [sym(n) for n in ('north', 'south', 'east', 'west')])
        rs = ip.run(f, sv, A(ip, st, f, [ZERO if kind == 'no entry' else e]) + [bb], st)

        def expect(q, s):
            ev = [e[1:] for e in s.trace if e[0] == 'request']
            r = value(ip, s, s.mem[('ret',)])
            if kind in ('no entry', 'no src'):
                return None if not ev and r == ZERO else 'a request is sent to nowhere'
            if len(ev) != 1 or ev[0][:2] != (c, GET):
                return 'another request is sent'
            parts = flat(ev[0][2])
            if ''.join(x[1] if x[0] == 's' else '%' for x in parts) != 'http://h/a/snippet?box=%,%,%,%' or [number(x) for x in parts if x[0] != 's'] != [sym(n) for n in ('west', 'south', 'east', 'north')]:
                return 'the request is %s' % pp(ev[0][2])
            return None if r == (el if kind == 'feed' else ZERO) else 'gives something else'
        report(chk, 'W3', 'SearchMapByBbox: %s' % kind, f, rs, expect, ip)
    for n, mime in (('PostMedia', T('mime')), ('PostCsv', S('text/csv')), ('PostKml', KML)):
        f = method(d, MD, n)
        for kind in ('fails', 'feed', 'entry', 'garbage'):
            ip, st, c, sv = make((None if kind == 'fails' else T('F'),))
            el = ZERO
            if kind in ('feed', 'entry'):
                st, el = element(d, ip, st, 'AtomFeed' if kind == 'feed' else 'AtomEntry', 'EL')
            ip.client.parsed = {T('F'): el}
            a = [T('slug')] + ([T('mime')] if n == 'PostMedia' else []) + [T('data')]
            out = ip.tmp(st, T('old'))
            rs = ip.run(f, sv, A(ip, st, f, a) + ([('p', out)] if n != 'PostKml' else []), st)

            def expect(q, s):
                ev = [e[1:] for e in s.trace if e[0] == 'request']
                if len(ev) != 1 or ev[0][:3] != (c, POST, S(base)) or sorted(pairs(ev[0][3])) != sorted([(S('Content-Type'), mime), (S('Slug'), T('slug'))]) or ev[0][4] != T('data'):
                    return 'another request is sent'
                return None if value(ip, s, s.mem[('ret',)]) == (el if kind == 'entry' else ZERO) else 'gives something else'
            report(chk, 'W3', '%s: %s' % (n, kind), f, rs, expect, ip)


def flat(t):
    """the parts of a concatenation"""
    if t[0] == 't' and t[1] == 'cat':
        r = []
        for x in t[2:]:
            for y in flat(x):
                if r and r[-1][0] == 's' and y[0] == 's':
                    r[-1] = S(r[-1][1] + y[1])
                else:
                    r.append(y)
        return r
    return [t]


def number(t):
    """the number written as a text"""
    if t[0] == 't' and t[1] == 'tostr':
        return t[-1]
    return t


def run(chk, db):
    d = Dom(db)
    d.classes()
    chk.rule('W1', 'headers are kept in order and found by their exact name; a request carries its method, address and all headers; logging in keeps exactly the token of the answer')
    chk.rule('W2', 'a service asks its own feed at its own address with its own version, and gives the feed of the answer or says it failed')
    chk.rule('W3', 'maps, features and searches are requested at the address of the entry with the data given, and every feature of every page is delivered in order')
    for g in (http, services, maps):
        guard(chk, g.__name__, g, chk, d)
    return {}
