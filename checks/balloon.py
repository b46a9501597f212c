"""Entity substitution: the entity map of a feature, expansion of a text, balloon text."""
from eng import *
from build import *
import harness, itertools
from harness import guard
from ids import getter
from kmz import S
from values import TCl, report, fns

EM = 'kmlengine::EntityMapper'
FILE = 'kmlengine::KmlFile'


def v(n):
    return T('v', n)


class BCl(TCl):
    """object lookup by id, URI fragments, resolved style and (if asked) the expansion are given"""
    def __init__(self, byid, style=None, expand=False):
        super().__init__()
        self.byid, self.style, self.expand = byid, style, expand

    def call(self, ip, st, fr, g, this, args, node):
        qn = g['qn']
        if qn == FILE + '::GetObjectById':
            k = models.valarg(ip, st, g, 0, args)
            if k[0] != 's':
                raise AnalysisBroken('an unknown id is looked up')
            return [(st, self.byid.get(k[1], ZERO))]
        if qn.split('(')[0] == 'kmlengine::SplitUriFragment' and len(args) == 2:
            u = models.valarg(ip, st, g, 0, args)
            if u[0] != 's':
                raise AnalysisBroken('fragment of an unknown text')
            if '#' not in u[1]:
                return [(st, ZERO)]
            ip.store(st, ip.deref_loc(args[1]), S(u[1].split('#', 1)[1]), fr, node)
            return [(st, ONE)]
        if qn == 'kmlengine::CreateResolvedStyle' and self.style is not None:
            st.trace = st.trace + (('resolve',) + tuple(models.valarg(ip, st, g, i, args) for i in range(3)),)
            return [(st, self.style)]
        if qn == 'kmlbase::CreateExpandedStrings' and self.expand:
            a = [models.valarg(ip, st, g, i, args) for i in range(4)]
            m = models.map_items(a[1])
            if m is None:
                raise AnalysisBroken('an entity map with unknown keys')
            return [(st, T('expanded', a[0], ('t', 'map') + tuple(T('kv', k, x) for k, x in m), a[2], a[3]))]
        return super().call(ip, st, fr, g, this, args, node)


class World:
    """a feature with given content; says what its entities are"""
    def __init__(self, d, style=None, expand=False):
        self.d, self.n = d, 0
        self.cl = BCl({}, style, expand)
        self.ip = EInterp(d.db, self.cl)
        self.st = State()
        self.map, self.alt = {}, []
        self.hasext = False

    def new(self, cls, *calls):
        self.n += 1
        self.st, o = element(self.d, self.ip, self.st, cls, '%s%d' % (cls, self.n), *calls)
        return o

    def sym(self, what):
        self.n += 1
        return v('%s%d' % (what, self.n))

    def feature(self, cls, fields, data=(), schemadata=(), ext=None):
        calls = []
        for f in fields:
            x = self.sym(f)
            if f == 'snippet':
                sn = self.new('Snippet', ('set_text', x))
                calls.append(('set_snippet', sn))
                self.map['Snippet'] = x
            else:
                calls.append(('set_' + f, x))
                self.map[{'targetid': 'targetId'}.get(f, f)] = x
        if ext or data or schemadata:
            self.hasext = True
            ec = []
            for dk in data:
                ec.append(('add_data', self.data(*dk)))
            for sk in schemadata:
                ec.append(('add_schemadata', self.schemadata(*sk)))
            calls.append(('set_extendeddata', self.new('ExtendedData', *ec)))
        self.fields = {c[0][4:]: c[1] for c in calls}
        return self.new(cls, *calls)

    def data(self, name, dn, val=True):
        calls, x = [], S('')
        if val:
            x = self.sym('value')
            calls.append(('set_value', x))
        if name is not None:
            calls.append(('set_name', S(name)))
            self.map[name] = x
        if dn:
            y = self.sym('displayname')
            calls.append(('set_displayname', y))
            if name is not None:
                self.map[name + '/displayName'] = y
        if name is not None:
            self.alt.append((y if dn else S(name), x))
        return self.new('Data', *calls)

    SCHEMAS = {'A': ('nameA', [('f1', True), ('f2', False)]), 'B': ('nameB', [('f2', True)]), 'N': ('', [('f1', False)]), 'X': None}

    def schema(self, sid):
        """the schema of an id, made once"""
        if not hasattr(self, 'made'):
            self.made = {}
        if sid not in self.made:
            if self.SCHEMAS[sid] is None:
                self.made[sid] = (self.new('Placemark'), None)
            else:
                nm, fl = self.SCHEMAS[sid]
                calls, dns = [('set_name', S(nm))] if nm else [], {}
                for fn, dn in fl:
                    c = [('set_name', S(fn))]
                    if dn:
                        dns[fn] = self.sym('fieldname')
                        c.append(('set_displayname', dns[fn]))
                    calls.append(('add_simplefield', self.new('SimpleField', *c)))
                self.made[sid] = (self.new('Schema', *calls), dns)
            self.cl.byid[sid] = self.made[sid][0]
        return self.made[sid]

    def schemadata(self, url, names):
        calls = []
        pre, disp = '/', {}
        if url is not None:
            calls.append(('set_schemaurl', S(url)))
            sid = url.split('#')[1] if '#' in url else None
            if sid in self.SCHEMAS:
                sc, dns = self.schema(sid)
                if dns is not None:
                    nm, fl = self.SCHEMAS[sid]
                    pre = nm + '/'
                    for fn, dn in fl:
                        if dn:
                            self.map[nm + '/' + fn + '/displayName'] = dns[fn]
                        disp[fn] = mk_cat(S(nm + ':'), dns[fn] if dn else S(fn))
        for n in names:
            x = self.sym('text')
            calls.append(('add_simpledata', self.new('SimpleData', ('set_name', S(n)), ('set_text', x))))
            self.map[pre + n] = x
            self.alt.append((disp.get(n, S(n)), x))
        return self.new('SchemaData', *calls)


def pairs(x):
    if x[0] != 'vec':
        return None
    return [(e[1], e[2]) if e[0] == 'pair' else None for e in x[1]]


def show(t):
    return ('"%s"' % t[1]) if t[0] == 's' else pp(t)


def entities(chk, d):
    f = [d.db.functions[m] for m in d.db.records[EM]['methods'] if d.db.functions[m]['n'] == 'GetEntityFields' and 'body' in d.db.functions[m]][0]
    FF = ('id', 'targetid', 'name', 'address', 'snippet', 'description')
    items = []
    for k in range(len(FF) + 1):
        for sub in itertools.combinations(FF, k):
            items.append(('Placemark', sub, (), (), False, 1))
    for c in ('Document', 'Folder', 'NetworkLink', 'GroundOverlay', 'ScreenOverlay', 'PhotoOverlay', 'GxTour'):
        items.append((c, FF, ((('d1', True)),), (('#A', ('f1',)),), False, 1))
    DK = [('d1', False), ('d1', True), (None, False), (None, True), ('d1', True, False), ('name', False)]
    for a in DK:
        for al in (0, 1):
            items.append(('Placemark', ('name',), (a,), (), False, al))
        for b in (('d2', False), ('d2', True), ('d1', False), (None, False)):
            items.append(('Placemark', (), (a, b), (), False, 1))
    SK = [(None, ('f1',)), ('#A', ('f1',)), ('#A', ('f2',)), ('#A', ('f1', 'f2')), ('#A', ('zz',)), ('#A', ('f2', 'zz')), ('#A', ()), ('#B', ('f2', 'f1')), ('#N', ('f1',)), ('#X', ('f1',)), ('#missing', ('f1',)),
          ('other.kml#A', ('f1',)), ('A', ('f1',))]
    for a in SK:
        for al in (0, 1):
            items.append(('Placemark', ('description',), (), (a,), False, al))
        for b in SK:
            items.append(('Placemark', (), (('d1', True),), (a, b), False, 1))
    items.append(('Placemark', (), (), (), True, 1))

    def one(c, it):
        cls, fields, data, sdata, ext, al = it
        w = World(d)
        ft = w.feature(cls, fields, data, sdata, ext)
        ip, st = w.ip, w.st
        M, A = ip.tmp(st, models.EMPTYMAP), ip.tmp(st, ('vec', ()))
        file = obj(st, 'FILE', FILE)
        cargs = [('p', ip.tmp(st, file)), ('p', M)] + ([('p', A)] if al else [])
        st, em = value_object(d, ip, st, EM, 'EM', cargs)
        rs = ip.run(f, em, [('p', ip.tmp(st, ft))], st)
        key = 'entities of a %s with %s%s%s%s' % (cls, ', '.join(fields) or 'no fields', ''.join(' Data(%s%s)' % (x[0], ', displayName' if x[1] else '') for x in data),
                                                 ''.join(' SchemaData(%s: %s)' % (u, ' '.join(n)) for u, n in sdata), '' if al else ', no list of pairs')

        def expect(q, s):
            m = models.map_items(ip.load(s, M))
            if m is None:
                return 'the entities are not those of the feature'
            got = {k[1]: x for k, x in m}
            for k in w.map:
                if k not in got:
                    return 'entity "%s" is missing' % k
                if got[k] != w.map[k]:
                    return 'entity "%s" is %s instead of %s' % (k, show(got[k]), show(w.map[k]))
            for k in got:
                if k not in w.map:
                    return 'there is an entity "%s"' % k
            ps = pairs(ip.load(s, A))
            want = w.alt if al else []
            if ps is None or len(ps) != len(want):
                return '%s name and value pairs instead of %d' % (len(ps) if ps is not None else 'unknown', len(want))
            for (g1, g2), (w1, w2) in zip(ps, want):
                if g2 != w2:
                    return 'a pair has the value %s instead of %s' % (show(g2), show(w2))
                if g1 != w1:
                    return 'a pair has the name %s instead of %s' % (show(g1), show(w1))
            return None
        report(c, 'E1', key, f, rs, expect, ip)
    harness.parallel(chk, items, one)


def expansion(chk, d):
    fs = fns(d, 'kmlbase::CreateExpandedStrings')
    g = fns(d, 'kmlengine::CreateExpandedEntities')
    if len(fs) != 1 or len(g) != 1:
        raise AnalysisBroken('expansion functions not found')
    toks = ['', 'x', '$[a]', '$[bb]', '$[u]', '$[', ']', '$[a', 'a', '$$[a]', '$[$[a]]', '[a]', '$[A]', '\n']
    maps = [{}, {'a': ''}, {'a': '1'}, {'a': 'VALUE', 'bb': 'y'}, {'bb': '2'}, {'a': '$[a]'}, {'a': 'x$[a]$[a]', 'bb': 'q'}, {'a': '$[', 'bb': ']'}, {'a': 'a', 'b': 'u', 'bb': 'bb'}, {'': 'E', 'a': 'z'}]
    texts = []
    for k in (1, 2):
        texts += [''.join(t) for t in itertools.product(toks, repeat=k)]
    texts += [''.join(t) for t in itertools.product(('x', '$[a]', '$[bb]', '$[u]', ']'), repeat=3)] + ['$[a]' * 4, '$[a]x$[a]x$[bb]$[a]', '$[]', 'x$[]y']
    texts = sorted(set(texts))

    def sub(t, m):
        out, i = '', 0
        while i < len(t):
            for k in m:
                if t.startswith('$[%s]' % k, i):
                    out += m[k]
                    i += len(k) + 3
                    break
            else:
                out += t[i]
                i += 1
        return out

    def ambiguous(t, m):
        # the values put in form, with the text around, a further key: no claim
        return any(sub(sub(t, {k: m[k]}), {k2: m[k2]}) != sub(t, {k: m[k], k2: m[k2]}) for k in m for k2 in m if k != k2)

    def one(c, t):
        for i, m in enumerate(maps):
            if ambiguous(t, m):
                continue
            ip = EInterp(d.db, TCl())
            st = State()
            mm = ip.tmp(st, models.map_of([(S(k), S(x)) for k, x in sorted(m.items())]))
            want = sub(t, m)

            def expect(q, s):
                r = s.mem[('ret',)]
                r = ip.load(s, r[1]) if r[0] == 'p' else r
                return None if r == S(want) else 'gives %s instead of "%s"' % (show(r), want)
            try:
                rs = ip.run(g[0], None, [('p', ip.tmp(st, S(t))), ('p', mm)], st)
            except Budget:
                c.bad('E2', 'expanding "%s" with map %d' % (t, i), where(fs[0]), 'does not end')
                continue
            report(c, 'E2', 'expanding "%s" with map %d' % (t, i), fs[0], rs, expect, ip)
    harness.parallel(chk, texts, one)
    # other marks, and none at all
    for a, b in (('$[', ']'), ('%', '%'), ('', '')):
        for m in ({'k': 'v'}, {'k': ''}, {}, {'': 'v'}):
            ip = EInterp(d.db, TCl())
            st = State()
            t = 'x%sk%sy' % (a, b)
            mm = ip.tmp(st, models.map_of([(S(k), S(x)) for k, x in m.items()]))
            rs = ip.run(fs[0], None, [('p', ip.tmp(st, S(t))), ('p', mm), ('p', ip.tmp(st, S(a))), ('p', ip.tmp(st, S(b)))], st)
            want = 'x%sy' % m['k'] if 'k' in m else t
            if '' in m and a:
                want = t.replace(a + b, 'v')

            def expect(q, s):
                r = s.mem[('ret',)]
                r = ip.load(s, r[1]) if r[0] == 'p' else r
                return None if r == S(want) else 'gives %s instead of "%s"' % (show(r), want)
            report(chk, 'E2', 'marks "%s" "%s", map %s' % (a, b, m), fs[0], rs, expect, ip)


def balloons(chk, d):
    NORMAL = [('c', x) for e in d.db.enums.values() for k, x in e['e'] if k == 'STYLESTATE_NORMAL'][0]
    f = fns(d, 'kmlengine::CreateBalloonText')
    if len(f) != 1:
        raise AnalysisBroken('CreateBalloonText not found')
    f = f[0]
    items = [(bs, fields, data, sd, ext) for bs in (None, False, True)
             for fields in ((), ('name',), ('description',), ('name', 'description'), ('name', 'snippet', 'address'))
             for data, sd, ext in (((), (), False), ((), (), True), ((('d1', False),), (), False), ((('d1', True), ('d2', False)), (('#A', ('f1', 'f2')), (None, ('g',))), False))]

    def one(c, it):
        bs, fields, data, sd, ext = it
        w = World(d, expand=True)
        text = w.sym('balloontext')
        w.cl.style = w.new('Style', *([] if bs is None else [('set_balloonstyle', w.new('BalloonStyle', *([('set_text', text)] if bs else [])))]))
        ft = w.feature('Placemark', fields, data, sd, ext)
        ip, st = w.ip, w.st
        file = obj(st, 'FILE', FILE)
        rs = ip.run(f, None, [('p', ip.tmp(st, file)), ('p', ip.tmp(st, ft))], st)
        ents = ('t', 'map') + tuple(T('kv', S(k), w.map[k]) for k in sorted(w.map))
        ex = lambda t: T('expanded', t, ents, S('$['), S(']'))
        if bs:
            want = ex(text)
        else:
            want = S('')
            parts = []
            if 'name' in fields:
                parts += [S('<h3>'), w.fields['name'], S('</h3><br/><br/>')]
            if 'description' in fields:
                parts.append(ex(w.fields['description']))
            if w.hasext:
                parts.append(S('\n<table border="1">\n'))
                for a, b in w.alt:
                    parts += [S('<tr><td>'), a, S('</td><td>'), b, S('</tr>\n')]
                parts.append(S('</table>\n'))
            for p in parts:
                want = mk_cat(want, p)

        def expect(q, s):
            r = s.mem[('ret',)]
            r = ip.load(s, r[1]) if r[0] == 'p' else r
            ev = [e for e in s.trace if e[0] == 'resolve']
            for e in ev:
                if e[1] != ft or e[2] != file:
                    return 'the style of something else is resolved'
                if e[3] != NORMAL:
                    return 'the highlighted style is resolved'
            return None if r == want else 'the text is %s instead of %s' % (pp(r)[:200], pp(want)[:200])
        key = 'balloon: %s; %s%s%s' % ('no balloon style' if bs is None else 'balloon style with%s text' % ('' if bs else 'out'), ', '.join(fields), ''.join(' Data %s' % x[0] for x in data),
                                      ''.join(' SchemaData %s' % x[0] for x in sd) or (' empty ExtendedData' if ext else ''))
        report(c, 'E3', key, f, rs, expect, ip)
    harness.parallel(chk, items, one)


def run(chk, db):
    d = Dom(db)
    d.classes()
    chk.rule('E1', 'the entities of a feature are exactly its own fields, data and schema data, each under its own name with its own value')
    chk.rule('E2', 'expanding replaces every occurrence of a known entity by its value, keeps everything else and always ends')
    chk.rule('E3', 'the balloon text is the expanded text of the resolved balloon style, else name, expanded description and the table of all extended data in order')
    for g in (entities, expansion, balloons):
        guard(chk, g.__name__, g, chk, d)
    return {}
