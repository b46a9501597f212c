"""Caches: bounded, oldest out first, never a wrong or empty item; the two-level fetch of references from inside a KMZ."""
from eng import *
import itertools
import harness
from harness import guard
from ids import report, getter
from kmz import method, S, W
import uri
from uri import UCl, uresolve, kmzsplit, fetchable, vis

ITEMS = ('kmlbase::MemoryFile', 'kmlengine::KmzFile', 'kmlengine::KmlFile')
URL = S('u')


def ncls(i):
    return 'kmlbase::NetCache<%s>' % i


class NCl(EngClient):
    """the network, and the making of an item from what was fetched"""
    def ev(self, st, *e):
        st.trace = st.trace + (e,)

    def call(self, ip, st, fr, g, this, args, node):
        if g['n'] == 'FetchUrl' and len(args) == 2:
            v = models.valarg(ip, st, g, 0, args)
            self.ev(st, 'fetch', v)
            out = []
            for x, b in ip.split(st, T('fetched', v), fr, node):
                if b:
                    ip.store(x, ip.deref_loc(args[1]), T('data', v), fr, node)
                out.append((x, ONE if b else ZERO))
            return out
        if g['n'] in ('CreateFromString', 'CreateFromParse', 'OpenFromString') and this is None and g.get('cls', '') in ITEMS:
            v = models.valarg(ip, st, g, 0, args)
            self.ev(st, 'make', v)
            out = []
            it = T('OBJ', 'made', v)
            for x, b in ip.split(st, T('valid', v), fr, node):
                if b:
                    x.assume(mk_nz(it), True)
                out.append((x, it if b else ZERO))
            return out
        return super().call(ip, st, fr, g, this, args, node)


def cachefields(ip, c):
    r = {}
    for k, f in ip.all_fields(c):
        t = ip.ty(f['t'])
        n = t.get('n', '')
        if 'map<' in n:
            r['map'] = k
        elif t.get('k') == 'ptr':
            r['net'] = k
        elif t.get('k') == 'int' and k.split('::')[-1].startswith('max'):
            r['max'] = k
        elif t.get('k') == 'int':
            r['count'] = k
        else:
            raise AnalysisBroken('unknown field %s of a cache' % k)
    if set(r) != {'map', 'net', 'max', 'count'}:
        raise AnalysisBroken('a cache has other fields than expected')
    return r


def mkmap(entries):
    m = models.EMPTYMAP
    for k, i, n in entries:
        m = T('mapset', m, S(k), ('pair', i, ('c', n)))
    return m


def content(s, loc):
    xs = models.map_items(s.mem.get(loc, models.EMPTYMAP))
    if xs is None:
        m, r = s.mem[loc], {}
        while m[0] == 't' and m[1] == 'mapset':
            r.setdefault(m[3][1] if m[3][0] == 's' else pp(m[3]), m[4])
            m = m[2]
        if m != models.EMPTYMAP:
            raise AnalysisBroken('the content of the cache is not known')
        return r
    return {k[1]: v for k, v in xs}


def pairof(v):
    if v[0] == 'pair':
        return v[1], v[2]
    if v[0] == 'rec':
        return v[2][0][1], v[2][1][1]
    raise AnalysisBroken('not a cache entry: %s' % pp(v)[:80])


def cases():
    """(max, entries): at most max(1, max) entries, every order of age; 'u' present or not"""
    for mx in (0, 1, 2, 3):
        for n in range(0, max(1, mx) + 1):
            keys = ['a', 'm', 'x'][:n]
            for perm in itertools.permutations(range(n)):
                yield mx, [(k, 3 + 2 * p) for k, p in zip(keys, perm)]
                if n:
                    for j in range(n):
                        yield mx, [('u' if i == j else k, 3 + 2 * p) for i, (k, p) in enumerate(zip(keys, perm))]


def netcache(chk, d):
    for item in ITEMS:
        c = ncls(item)
        if c not in d.db.records:
            chk.unk('N1', item, 'no cache of it')
            continue
        fs = {n: method(d, c, n) for n in ('Fetch', 'LookUp', 'Save', 'Delete', 'RemoveOldest', 'Size')}
        sh = item.split('::')[-1]
        for mx, ent in cases():
            for name in fs:
                ip = EInterp(d.db, NCl())
                st = State()
                O = obj(st, 'CACHE', c)
                fl = cachefields(ip, c)
                items = {}
                for k, n in ent:
                    items[k] = T('OBJ', 'item', S(k))
                    st.assume(mk_nz(items[k]), True)
                loc = ('m', O, fl['map'])
                st.mem[loc] = mkmap([(k, items[k], n) for k, n in ent])
                st.mem[('m', O, fl['max'])] = ('c', mx)
                st.mem[('m', O, fl['count'])] = ('c', 20)
                net = obj(st, 'NET', 'kmlbase::NetFetcher')
                st.mem[('m', O, fl['net'])] = net
                NEW = T('OBJ', 'newitem')
                st.assume(mk_nz(NEW), True)
                f = fs[name]
                args = {'Fetch': [('p', ip.tmp(st, URL))], 'LookUp': [('p', ip.tmp(st, URL))], 'Delete': [('p', ip.tmp(st, URL))],
                        'Save': [('p', ip.tmp(st, URL)), ('p', ip.tmp(st, NEW))], 'RemoveOldest': [], 'Size': []}[name]
                rs = ip.run(f, O, args, st)
                old = {k: n for k, n in ent}

                def expect(q, s):
                    r = s.mem[('ret',)]
                    if r[0] == 'p':
                        r = ip.load(s, r[1])
                    now = content(s, loc)
                    want = {k: items[k] for k in old}
                    age = dict(old)
                    oldest = min(old, key=lambda k: old[k]) if old else None
                    has = 'u' in old
                    new, fetches = None, []
                    if name == 'LookUp':
                        exp = items['u'] if has else ZERO
                    elif name == 'Size':
                        exp = ('c', len(old))
                    elif name == 'Delete':
                        exp = ONE if has else ZERO
                        want.pop('u', None)
                    elif name == 'RemoveOldest':
                        exp = ONE if old else ZERO
                        want.pop(oldest, None)
                    elif name == 'Save':
                        exp = ZERO if has else ONE
                        new = None if has else NEW
                    else:
                        if has:
                            exp = items['u']
                        else:
                            fetches = [('fetch', URL)]
                            exp = ZERO
                            if q(T('fetched', URL)):
                                fetches.append(('make', T('data', URL)))
                                if q(T('valid', T('data', URL))):
                                    exp = new = T('OBJ', 'made', T('data', URL))
                    if [e for e in s.trace if e[0] in ('fetch', 'make')] != fetches:
                        return 'network use: %s' % pp(tuple(s.trace))[:120]
                    if name in ('Save', 'Delete', 'RemoveOldest'):
                        r = ONE if q(mk_nz(r)) else ZERO
                    if r != exp:
                        return 'gives %s instead of %s' % (pp(r), pp(exp))
                    if new is not None:
                        if len(old) >= mx and oldest is not None:
                            want.pop(oldest)
                        want['u'] = new
                    got = {k: pairof(v) for k, v in now.items()}
                    if {k: v[0] for k, v in got.items()} != want:
                        return 'holds %s instead of %s' % (', '.join('%s: %s' % (k, pp(v[0])) for k, v in sorted(got.items())) or 'nothing', ', '.join('%s: %s' % (k, pp(v)) for k, v in sorted(want.items())) or 'nothing')
                    for k in got:
                        if k in age and not (new is not None and k == 'u') and got[k][1] != ('c', age[k]):
                            return 'the age of an item changes'
                    if new is not None:
                        n = got['u'][1]
                        cnt = ip.load(s, ('m', O, fl['count']))
                        if n[0] != 'c' or cnt[0] != 'c' or any(n[1] <= x for k, x in age.items() if k in want) or cnt[1] <= n[1]:
                            return 'a new item is not the youngest'
                    return None
                report(chk, 'N1', '%s cache, limit %d, %s: %s' % (sh, mx, ', '.join('%s(%d)' % e for e in ent) or 'empty', name), f, rs, expect)


class FCl(UCl):
    """the caches as oracles: a KMZ or file at an address can be fetched or not, an archive has an entry or not"""
    nomalloc = True

    def branch2(self, ip, st, fr, node, atom, ok, bad=('c', 1)):
        r = ok(st)
        return [(st, ZERO if r is None else r)]

    def uri(self, ip, st, fr, g, n, args, v, node):
        if n in ('ParseUri', 'ParseSingleUri') and v[1][0] == 's' and v[1][1] != self.doubt:
            st.assume(T('parses', v[1]), True)
        return super().uri(ip, st, fr, g, n, args, v, node)

    def item(self, ip, st, fr, node, kind, u, atom):
        out = []
        it = T('OBJ', kind, u)
        for x, b in ip.split(st, atom, fr, node):
            if b:
                x.assume(mk_nz(it), True)
            out.append((x, it if b else ZERO))
        return out

    def call(self, ip, st, fr, g, this, args, node):
        qn, n = g['qn'], g['n']
        if qn.startswith('kmlbase::NetCache<') and n in ('Fetch', 'LookUp', 'Save') and (this is None or this[0] != 'new'):
            kind = 'KMZ' if 'KmzFile' in qn else 'FILE' if 'MemoryFile' in qn else 'KML'
            u = models.valarg(ip, st, g, 0, args)
            if n == 'Save':
                self.ev(st, 'save', kind, u, models.valarg(ip, st, g, 1, args))
                return [(st, T('saves'))]
            self.ev(st, n, kind, u)
            if kind == 'KML':
                return self.item(ip, st, fr, node, kind, u, T('kmlcached', u))
            if u == S(''):             # no archive has an empty address
                return [(st, ZERO)]
            if n == 'Fetch' or ('Fetch', kind, u) in st.trace:
                return self.item(ip, st, fr, node, kind, u, T('fetched', S(kind), u))
            return self.item(ip, st, fr, node, kind, u, T('cached', S(kind), u))
        if this is not None and this[:3] == ('t', 'OBJ', 'KMZ') and n in ('ReadFile', 'ReadKmlAndGetPath', 'ReadKml', 'IsKmz'):
            u = this[3]
            out = []
            if n == 'ReadFile':
                p = models.valarg(ip, st, g, 0, args)
                atom, val = T('has', u, p), T('entry', u, p)
                dst = args[1]
            else:
                atom, val, dst = T('haskml', u), T('defkml', u), args[0]
            for x, b in ip.split(st, atom, fr, node):
                if b:
                    ip.store(x, ip.deref_loc(dst), val, fr, node)
                    if n == 'ReadKmlAndGetPath':
                        ip.store(x, ip.deref_loc(args[1]), S('d/' + W + '.kml'), fr, node)
                out.append((x, ONE if b else ZERO))
            return out
        if this is not None and this[:3] == ('t', 'OBJ', 'FILE') and n == 'get_content':
            return [(st, ('p', ip.tmp(st, T('content', this[3]))))]
        if qn in ('kmlengine::KmlFile::CreateFromStringWithUrl', 'kmlengine::KmlFile::CreateFromString', 'kmlengine::KmlFile::CreateFromParse'):
            v = self.vals(ip, st, g, args)
            self.ev(st, 'parse', *v)
            return self.item(ip, st, fr, node, 'PARSED', T('p', *v), T('kmlparses', v[0]))
        return super().call(ip, st, fr, g, this, args, node)


BASES = ['http://W/p/W.kml', 'http://W/p/W.kmz/doc.kml', 'http://W/p/W.kmz/a/b.kml', 'http://W/p/a.kmz']
TARGETS = ['W.png', 'a/W.png', '../W.png', '../../W.png', 'b.kmz', 'b.kmz/W.png', '../c.kmz/W', 'http://W/q/W.png', 'http://W/p/W.kmz/W', 'http://W/p/a.kmz', '#W', '/z/W']
BASES, TARGETS = [[x.replace('W', W) for x in l] for l in (BASES, TARGETS)]


def kmzpart(url):
    return kmzsplit(fetchable(url))


def outcome(q, base, target):
    """-> None, or (content, address it came from): inside the archive first, then next to the archive"""
    url = uresolve(base, target)
    if url is None:
        return None
    k = kmzpart(url)
    if k is None:
        return (T('content', S(url)), url) if q(T('fetched', S('FILE'), S(url))) else None

    def inside(url, k):
        if k[1]:
            return (T('entry', S(k[0]), S(k[1])), url) if q(T('has', S(k[0]), S(k[1]))) else None
        return (T('defkml', S(k[0])), k[0] + '/d/' + W + '.kml') if q(T('haskml', S(k[0]))) else None
    if not q(T('fetched', S('KMZ'), S(k[0]))):
        return None
    r = inside(url, k)
    if r:
        return r
    url = uresolve(k[0], target)
    k = kmzpart(url)
    if k is None:
        return (T('content', S(url)), url) if q(T('fetched', S('FILE'), S(url))) else None
    if not q(T('fetched', S('KMZ'), S(k[0]))):
        return None
    return inside(url, k)


def kuri(d, ip, st, b, t):
    f = method(d, 'kmlengine::KmlUri', 'CreateRelative')
    rs = ip.run(f, None, [('p', ip.tmp(st, S(b))), ('p', ip.tmp(st, S(t)))], st)
    rs = [(s, v) for s, v in rs if v != ZERO]
    if len(rs) != 1:
        raise AnalysisBroken('reference %s from %s' % (vis(t), vis(b)))
    s, v = rs[0]
    s.trace = ()
    s.mem = dict(s.mem)
    return s, v


def mkip(d, doubt=None):
    cl = FCl(d)
    cl.doubt = doubt
    ip = EInterp(d.db, cl)
    ip.recursion_limit = 6
    return ip


def clean(s):
    e = [x for x in s.trace if x[0] == 'problem']
    return e[0][1] if e else None


def kmzcache(chk, d):
    KC = 'kmlengine::KmzCache'
    for b in BASES:
        for t in TARGETS:
            for name in ('DoFetchAndReturnUrl', 'DoFetch', 'FetchFromCache'):
                f = method(d, KC, name)
                for null in (0, 1, 2) if name == 'DoFetchAndReturnUrl' else (0, 2):
                    ip = mkip(d)
                    st, u = kuri(d, ip, State(), b, t)
                    O = obj(st, 'KMZCACHE', KC)
                    o, fu = ip.tmp(st, S('old')), ip.tmp(st, S('oldurl'))
                    args = [u, ZERO if null == 2 else ('p', o)]
                    if name == 'DoFetchAndReturnUrl':
                        args.append(ZERO if null == 1 else ('p', fu))
                    rs = ip.run(f, O, args, st)
                    url = uresolve(b, t)

                    def expect(q, s):
                        r = q(mk_nz(s.mem[('ret',)]))
                        if null == 2:
                            return 'succeeds without output' if r else None
                        if name == 'FetchFromCache':
                            k = kmzpart(url)
                            if k is None:
                                exp = None
                                if r:
                                    return 'something not in a KMZ is found in one'
                            elif not q(T('cached', S('KMZ'), S(k[0]))):
                                exp = None
                            elif k[1]:
                                exp = (T('entry', S(k[0]), S(k[1])), url) if q(T('has', S(k[0]), S(k[1]))) else None
                            else:
                                exp = (T('defkml', S(k[0])), k[0] + '/d/' + W + '.kml') if q(T('haskml', S(k[0]))) else None
                            if any(e[0] == 'Fetch' for e in s.trace):
                                return 'the network is used'
                        else:
                            exp = outcome(q, b, t)
                        if r != (exp is not None):
                            return '%s although %s' % (('succeeds', 'the target cannot be found') if r else ('fails', 'the target can be found'))
                        got = s.mem.get(o)
                        if got != (exp[0] if exp else S('old')):
                            return 'the content is %s' % vis(got)
                        if exp and not null and name == 'DoFetchAndReturnUrl' and s.mem.get(fu) != S(exp[1]):
                            return 'the address reported is %s instead of %s' % (vis(s.mem.get(fu)), vis(S(exp[1])))
                        if exp and getter(ip, s, 'kmlengine::KmlUri', 'get_url', u) != S(exp[1]) and exp[1].startswith(url) and exp[1] != url:
                            return 'the reference does not name the file of the archive'
                        return None
                    report(chk, 'N2', '%s of %s from %s%s' % (name, vis(t), vis(b), ('', ', no address asked for', ', no output')[null]), f, rs, expect)
    f = method(d, KC, 'DoFetchAndReturnUrl')
    ip = mkip(d)
    st = State()
    O = obj(st, 'KMZCACHE', KC)
    o = ip.tmp(st, S('old'))
    rs = ip.run(f, O, [ZERO, ('p', o), ZERO], st)
    report(chk, 'N2', 'no reference', f, rs, lambda q, s: 'succeeds without a reference' if q(mk_nz(s.mem[('ret',)])) or s.trace else None)


def kmlcache(chk, d):
    KC = 'kmlengine::KmlCache'
    for name in ('FetchKmlRelative', 'FetchKmlAbsolute', 'FetchDataRelative'):
        f = method(d, KC, name)
        for b in BASES + [W + '/rel.kml']:
            for t in TARGETS:
                if name == 'FetchKmlAbsolute' and t != TARGETS[0]:
                    continue
                ip = mkip(d, doubt=t)
                st = State()
                O = obj(st, 'KMLCACHE', KC)
                o = ip.tmp(st, S('old'))
                B, TT = ('p', ip.tmp(st, S(b))), ('p', ip.tmp(st, S(t)))
                args = {'FetchKmlRelative': [B, TT], 'FetchKmlAbsolute': [B], 'FetchDataRelative': [B, TT, ('p', o)]}[name]
                rs = ip.run(f, O, args, st)
                tt = b if name == 'FetchKmlAbsolute' else t

                def expect(q, s):
                    r = s.mem[('ret',)]
                    e = uri.released(s)
                    if e:
                        return e
                    url = uresolve(b, tt)
                    if url is not None and tt == t and not q(T('parses', S(t))):
                        url = None
                    if name == 'FetchDataRelative':
                        exp = outcome(q, b, tt) if url is not None else None
                        if q(mk_nz(r)) != (exp is not None):
                            return '%s although %s' % (('fails', 'the target can be found') if exp else ('succeeds', 'it cannot'))
                        return None if s.mem.get(o) == (exp[0] if exp else S('old')) else 'the content is %s' % vis(s.mem.get(o))
                    parses = [e for e in s.trace if e[0] == 'parse']
                    saves = [e for e in s.trace if e[0] == 'save']
                    if url is None:
                        exp = ZERO
                    elif q(T('kmlcached', S(url))):
                        exp = T('OBJ', 'KML', S(url))
                        if any(e[0] == 'Fetch' for e in s.trace) or parses or saves:
                            return 'a cached file is fetched again'
                    else:
                        x = outcome(q, b, tt)
                        if x is None:
                            exp = ZERO
                            if parses or saves:
                                return 'something is parsed although nothing was fetched'
                        elif len(parses) == 1 and parses[0][1:3] == (x[0], S(x[1])) and parses[0][3] == O:
                            if q(T('kmlparses', x[0])):
                                exp = T('OBJ', 'PARSED', T('p', *parses[0][1:]))
                                if saves != [('save', 'KML', S(x[1]), exp)]:
                                    return 'the parsed file is not saved under its address'
                            else:
                                exp = ZERO
                                if saves:
                                    return 'something that does not parse is saved'
                        else:
                            return 'parses %s instead of %s from %s' % (vis(tuple(parses))[:150], vis(x[0]), vis(S(x[1])))
                    return None if r == exp else 'gives %s instead of %s' % (vis(r), vis(exp))
                report(chk, 'N3', '%s %s from %s' % (name, vis(tt), vis(b)), f, rs, expect)


def linkutil(chk, d):
    """FetchLink, FetchIcon: the link of the element, against the address of the file"""
    cases = (('FetchLink', 'kmldom::NetworkLink', 'link_', 'kmldom::Link', 'FetchKmlRelative'), ('FetchIcon', 'kmldom::GroundOverlay', 'icon_', 'kmldom::Icon', 'FetchDataRelative'))
    for name, cls, fld, sub, ev in cases:
        f = d.fn1('kmlengine::' + name)
        for cache in (0, 1):
            for link in (0, 1, 2):

                class C2(EngClient):
                    def call(self, ip, st, fr, g, this, args, node):
                        if g['qn'] == 'kmlengine::KmlCache::' + ev:
                            st.trace = st.trace + ((ev, this) + self.vals(ip, st, g, args)[:2],)
                            return [(st, T('RESULT'))]
                        return super().call(ip, st, fr, g, this, args, node)
                ip = EInterp(d.db, C2())
                st = State()
                K = obj(st, 'KMLFILE', 'kmlengine::KmlFile')
                C = obj(st, 'KMLCACHE', 'kmlengine::KmlCache')
                L = obj(st, 'LINK', sub)
                E = obj(st, 'ELEM', cls)
                for k, fl in ip.all_fields('kmlengine::KmlFile'):
                    t = ip.ty(fl['t'])
                    if t.get('k') == 'ptr' and 'KmlCache' in t.get('p', ''):
                        st.mem[('m', K, k)] = C if cache else ZERO
                for k, fl in ip.all_fields(cls):
                    if k.split('::')[-1] == fld:
                        st.mem[('m', E, k)] = L if link else ZERO
                for k, fl in ip.all_fields(sub):
                    if k.split('::')[-1] == 'has_href_':
                        st.mem[('m', L, k)] = ONE if link == 2 else ZERO
                o = ip.tmp(st, S('old'))
                url = getter(ip, st, 'kmlengine::KmlFile', 'get_url', K)
                href = getter(ip, st, sub, 'get_href', L)
                rs = ip.run(f, None, [('p', ip.tmp(st, K)), ('p', ip.tmp(st, E))] + ([('p', o)] if name == 'FetchIcon' else []), st)

                def expect(q, s):
                    want = [(ev, C, url, href)] if cache and link == 2 else []
                    got = [e for e in s.trace if e[0] == ev]
                    if got != want:
                        return 'fetches %s' % pp(tuple(got))[:150]
                    r = s.mem[('ret',)]
                    if want:
                        return None if r == T('RESULT') else 'the result is not the one fetched'
                    return 'something is returned although nothing is fetched' if q(mk_nz(r)) else None
                report(chk, 'N4', '%s, %s, %s' % (name, 'cache' if cache else 'no cache', ('no link', 'link without href', 'link')[link]), f, rs, expect)


def run(chk, db):
    d = Dom(db)
    d.classes()
    chk.rule('N1', 'a cache of any content and limit answers with the item saved under the address, never holds more than its limit (at least one), drops only the oldest and only when full, and never keeps an invalid item')
    chk.rule('N2', 'a reference is looked for in the archive it leads into and then next to that archive, nowhere else; the content and address reported belong together')
    chk.rule('N3', 'a KML file is taken from the cache or fetched, parsed with the address it came from and saved under it')
    chk.rule('N4', 'the link of an element is fetched against the address of its file')
    for g in (netcache, kmzcache, kmlcache, linkutil):
        guard(chk, g.__name__, g, chk, d)
    return {}
