"""Style resolution, splitting and inlining."""
from eng import *
import harness
from harness import guard
from ids import getter, report
from update import vec_field

SM, KF, SS, STYLE, SMAP, PAIR = 'kmlengine::StyleMerger', 'kmlengine::KmlFile', 'kmldom::StyleSelector', 'kmldom::Style', 'kmldom::StyleMap', 'kmldom::Pair'
STATE = T('state')


class Cl(EngClient):
    """objects with getter values given in a table"""
    def __init__(self, d):
        super().__init__()
        self.d = d
        self.table = {}

    def call(self, ip, st, fr, g, this, args, node):
        n, qn = g['n'], g['qn']
        if this is not None and (this, n) in self.table:
            t = self.table[(this, n)]
            v = t(ip, st, args) if callable(t) else t
            if ip.ty(g['ret']).get('ref'):
                return [(st, ('p', ip.tmp(st, v)))]
            return [(st, v)]
        if qn == 'kmlengine::SplitUri':
            u = models.valarg(ip, st, g, 0, args)
            if u[0] != 's' or u[1] == 'bad':
                return [(st, ZERO)]
            path, _, frag = u[1].partition('#')
            vals = {4: ('s', path), 6: ('s', frag)}
            for i in range(1, 7):
                if i < len(args) and args[i] != ZERO:
                    ip.store(st, ip.deref_loc(args[i]), vals.get(i, T('uripart', u, i)), fr, node)
            return [(st, ONE)]
        if qn in ('kmlengine::MergeElements', 'kmlengine::MergeFields'):
            v = self.vals(ip, st, g, args)
            st.trace = st.trace + ((n,) + v,)
            self.merged(ip, st, v)
            return [(st, VOID)]
        if g.get('cls') == 'kmldom::KmlFactory' and n.startswith('Create') and not args:
            c = 'kmldom::' + n[6:]
            e = ip.new_obj(st, c)
            st.mem[('exact', e)] = ONE
            st.assume(mk_nz(e), True)
            st.trace = st.trace + (('New', e, n[6:]),)
            return [(st, e)]
        if qn == 'kmlengine::KmlCache::FetchKmlRelative':
            v = self.vals(ip, st, g, args)
            return self.fetch(ip, st, fr, v, node)
        return super().call(ip, st, fr, g, this, args, node)

    def merged(self, ip, st, v):
        pass

    def fetch(self, ip, st, fr, v, node):
        return [(st, ZERO)]


def S(x):
    return ('s', x)


class World:
    """a graph of shared styles"""
    def __init__(self, d, ip, cl, st):
        self.d, self.ip, self.cl, self.st = d, ip, cl, st
        self.pairs = {}
        self.n = 0

    def o(self, cls, name=None):
        self.n += 1
        x = obj(self.st, '%s%d' % (name or cls.split('::')[-1], self.n), cls)
        self.st.mem[('exact', x)] = ONE
        return x

    def style(self, name='Style'):
        return self.o(STYLE, name)

    def smap(self, *pairs):
        m = self.o(SMAP)
        ps = []
        for key, url, sel in pairs:
            p = self.o(PAIR)
            t = self.cl.table
            t[(p, 'get_key')] = key
            t[(p, 'get_styleurl')] = S(url)
            t[(p, 'has_styleurl')] = ONE if url else ZERO
            t[(p, 'get_styleselector')] = sel if sel else ZERO
            t[(p, 'has_styleselector')] = ONE if sel else ZERO
            ps.append(p)
        self.pairs[m] = list(zip(ps, pairs))
        self.cl.table[(m, 'get_pair_array_size')] = ('c', len(ps))
        self.cl.table[(m, 'get_pair_array_at')] = lambda ip, st, args: ps[args[0][1]] if args[0][0] == 'c' and 0 <= args[0][1] < len(ps) else T('nopair')
        return m


def file_map_field(ip):
    c = [fl[0] for fl in ip.all_fields(KF) if 'map<' in ip.ty(fl[1]['t']).get('n', '').replace('std::', '') and SS in ip.ty(fl[1]['t']).get('n', '')]
    if len(c) != 1:
        raise AnalysisBroken('shared style index not found')
    return c[0]


def build(d, cl, ip, st):
    w = World(d, ip, cl, st)
    k0, k1 = T('k0'), T('k1')
    A, B, I, R = w.style('A'), w.style('B'), w.style('I'), w.style('R')
    local = {'a': A, 'b': B}
    local['m'] = w.smap((k0, '#a', None))
    local['n'] = w.smap((k0, '#a', None), (k1, '#b', None))
    local['i'] = w.smap((k0, '', I), (k1, '#b', I))
    local['two'] = w.smap((k0, '#a', I), (k0, '#b', None))
    local['l'] = w.smap((k0, '#l', I))
    local['l2'] = w.smap((k0, '#l3', None), (k1, '#a', None))
    local['l3'] = w.smap((k0, '#l2', None), (k1, '#b', None))
    local['nest'] = w.smap((k0, '', w.smap((k0, '#a', None), (k1, '#b', None))))
    local['rem'] = w.smap((k0, 'r.kml#a', None))
    for i in range(1, 8):
        local['d%d' % i] = w.smap((k0, '#d%d' % (i + 1), None))
    local['d8'] = A
    remote = {'a': R, 'm': w.smap((k0, '#a', None)), 'q': w.smap((k0, '#b', None)), 'r': w.smap((k0, 's.kml#a', I)), 'v': w.smap((k0, '#w', None), (k0, 's.kml#w', None)), 'w': w.smap((k0, '#a', None), (k0, '#v', None))}
    sels = {'none': None, 'style': I, 'map': w.smap((k0, '#a', B), (k1, '#b', None)), 'mapurl': w.smap((k0, 'r.kml#m', None))}
    return w, local, remote, sels


def reference(q, w, local, remote, url, sel, cache, R, limit, base):
    out = []
    n = [limit]

    def m_url(u, ctx):
        n[0] -= 1
        if n[0] < 0:
            return
        if not u or u == 'bad':
            return
        path, _, frag = u.partition('#')
        if not frag:
            return
        files, b = ctx
        if not path:
            if frag in files:
                m_sel(files[frag], ctx)
            return
        if not cache:
            return
        if not q(T('fetched', b, S(u))):
            return
        if frag in remote:
            m_sel(remote[frag], (remote, T('rurl', b, S(u))))

    def m_sel(s, ctx):
        if s is None:
            return
        if s in w.pairs:
            for p, (key, u, s2) in w.pairs[s]:
                if q.eq(STATE, key):
                    m_url(u, ctx)
                    m_sel(s2, ctx)
        else:
            out.append(('MergeElements', s, R))
    m_url(url, (local, base))
    m_sel(sel, (local, base))
    return out


def resolve(chk, d):
    f = d.fn1('kmlengine::CreateResolvedStyle')
    limit = None
    for v in d.db.globals_const() if hasattr(d.db, 'globals_const') else []:
        pass
    urls = ['', 'bad', '#', '#a', '#m', '#n', '#i', '#two', '#l', '#l2', '#nest', '#zz', '#rem', '#d1', '#d3', '#d4', '#d5', 'r.kml#a', 'r.kml#m', 'r.kml#q', 'r.kml#r', 'r.kml#v', 'r.kml#zz', 'r.kml']
    items = [(u, s, c) for u in urls for s in ('none', 'style', 'map', 'mapurl') for c in (True, False) if c or 'kml' in u or u in ('#a', '', '#rem') or s == 'mapurl']

    def work(c, item):
        u, sn, cache = item
        cl = Cl(d)
        ip = EInterp(d.db, cl)
        ip.recursion_limit, ip.max_depth = 16, 120
        st = State()
        w, local, remote, sels = build(d, cl, ip, st)
        FEAT = obj(st, 'FEAT', 'kmldom::Feature')
        FILE = obj(st, 'FILE', KF)
        CACHE = obj(st, 'CACHE', 'kmlengine::KmlCache')
        sel = sels[sn]
        cl.table.update({(FEAT, 'get_styleurl'): S(u), (FEAT, 'has_styleurl'): ONE if u else ZERO,
                         (FEAT, 'get_styleselector'): sel or ZERO, (FEAT, 'has_styleselector'): ONE if sel else ZERO})
        ff = file_map_field(ip)
        st.mem[('m', FILE, ff)] = models.map_of([(S(k), v) for k, v in sorted(local.items())])
        cl.table[(FILE, 'get_kml_cache')] = CACHE if cache else ZERO
        cl.table[(FILE, 'get_url')] = T('base')

        def fetch(ip, s, fr, v, node):
            out = []
            for x, b in ip.split(s, T('fetched', v[0], v[1]), fr, node):
                if not b:
                    out.append((x, ZERO))
                    continue
                r = T('OBJ', ('REMOTE', v[0], v[1]))
                x.cls[r] = KF
                x.assume(mk_nz(r), True)
                x.mem[('m', r, ff)] = models.map_of([(S(k), y) for k, y in sorted(remote.items())])
                cl.table[(r, 'get_kml_cache')] = CACHE
                cl.table[(r, 'get_url')] = T('rurl', v[0], v[1])
                x.trace = x.trace + (('Fetch', v[0], v[1]),)
                out.append((x, r))
            return out
        cl.fetch = fetch
        rs = ip.run(f, None, [('p', ip.tmp(st, FEAT)), ('p', ip.tmp(st, FILE)), STATE], st)
        key = 'styleUrl %s, inline %s%s' % (u or 'none', sn, '' if cache else ', no cache')

        def expect(q, s):
            v = s.mem[('ret',)]
            news = [e for e in s.trace if e[0] == 'New']
            if ('New', v, 'Style') not in news:
                return 'the resolved style is not a new Style'
            got = [e for e in s.trace if e[0] in ('MergeElements', 'MergeFields')]
            want = reference(q, w, local, remote, u, sel, cache, v, 5, T('base'))
            if got != want:
                return 'the styles merged are %s instead of %s' % (pp(tuple(e[1] for e in got))[:160], pp(tuple(e[1] for e in want))[:160])
            return None
        report(c, 'S1', key, f, rs, expect)
    harness.parallel(chk, items, work)


def selector(chk, d):
    """CreateResolvedStyleSelector: a StyleMap of two pairs with the resolved styles of the two states"""
    f = d.fn1('kmlengine::StyleResolver::CreateResolvedStyleSelector')

    class C2(Cl):
        def call(self, ip, st, fr, g, this, args, node):
            if g['qn'] == 'kmlengine::StyleResolver::CreateResolvedStyle':
                v = self.vals(ip, st, g, args)
                return [(st, T('resolved', v[0], v[1], args[2], v[-1]))]
            if g['n'] == 'ClearIds':
                v = models.valarg(ip, st, g, 0, args)
                return [(st, ('p', ip.tmp(st, T('cleared', v))))]
            if this is not None and g['n'] in ('set_key', 'set_styleselector', 'add_pair', 'set_styleurl'):
                st.trace = st.trace + ((g['n'], this) + self.vals(ip, st, g, args),)
                return [(st, VOID)]
            return super().call(ip, st, fr, g, this, args, node)

        def cast(self, ip, st, fr, v, c, node):
            if v[:2] == ('t', 'cleared'):
                return [(st, v)]
            return super().cast(ip, st, fr, v, c, node)
    ip = EInterp(d.db, C2(d))
    st = State()
    ml = ip.tmp(st, T('M0'))
    rs = ip.run(f, None, [('p', ip.tmp(st, T('url'))), ('p', ml)], st)
    en = {}
    for k, v in d.eval_.items() if hasattr(d, 'eval_') else []:
        en[k] = v

    def expect(q, s):
        v = s.mem[('ret',)]
        if ('New', v, 'StyleMap') not in s.trace:
            return 'the result is not a new StyleMap'
        pairs = [e[2] for e in s.trace if e[0] == 'add_pair' and e[1] == v]
        got = []
        for p in pairs:
            k = [e[2] for e in s.trace if e[0] == 'set_key' and e[1] == p]
            x = [e[2] for e in s.trace if e[0] == 'set_styleselector' and e[1] == p]
            if len(k) != 1 or len(x) != 1:
                return 'a pair does not get one key and one style'
            y = x[0]
            if y[:2] == ('t', 'cleared'):
                y = y[2]
            if y[:2] != ('t', 'resolved') or y[2] != T('url') or y[3] != ZERO or y[4] != ('p', ml) or y[5] != k[0]:
                return 'the pair for a state does not get the style resolved for that state from the given styles'
            got.append(k[0])
        if sorted(got) != [('c', 0), ('c', 1)]:
            return 'the pairs are for the states %s' % pp(tuple(got))
        return None
    report(chk, 'S2', 'CreateResolvedStyleSelector', f, rs, expect)


def observers(chk, d, splitter):
    cls = 'kmlengine::StyleSplitter' if splitter else 'kmlengine::StyleInliner'
    rule = 'S3' if splitter else 'S4'
    ctors = [g for g in (d.db.functions[m] for m in d.db.records[cls]['methods']) if g['kind'] == 'ctor' and len(g['params']) == (1 if splitter else 0) and 'body' in g and not g.get('copy')]
    if len(ctors) != 1:
        raise AnalysisBroken('constructor of ' + cls)
    tv = d.tval

    class C3(Cl):
        def call(self, ip, st, fr, g, this, args, node):
            n = g['n']
            if this is not None and n in ('add_styleselector', 'set_styleurl', 'set_styleselector', 'set_id', 'clear_styleurl', 'clear_styleselector') and ip.is_sub(g.get('cls', ''), ELEM):
                v = self.vals(ip, st, g, args)
                st.trace = st.trace + ((n, this) + v,)
                if n == 'set_id':
                    st.mem[('id', this)] = v[0]
                return [(st, VOID)]
            if this is not None and n == 'get_id' and ('id', this) in st.mem:
                return [(st, ('p', ip.tmp(st, st.mem[('id', this)])))]
            if this is not None and n == 'has_id' and ('id', this) in st.mem:
                return [(st, ONE)]
            if n == 'CreateResolvedStyleSelector':
                v = self.vals(ip, st, g, args)
                return [(st, T('resolvedsel', *v))]
            if this is not None and n == 'get_char_data':
                return [(st, ('p', ip.tmp(st, self.text)))]
            return super().call(ip, st, fr, g, this, args, node)

        def merged(self, ip, st, v):
            # merging overlays attributes: a source with an id passes it on
            if st.decide(T('srcid')) and v[0] == T('OBJ', 'CHILD'):
                st.mem[('id', v[1])] = T('childid')
    PC = ['kmldom::Placemark', 'kmldom::Document', 'kmldom::Folder', 'kmldom::Style', 'kmldom::NetworkLink']
    CC = ['kmldom::Style', 'kmldom::StyleMap', 'kmldom::Point', 'kmldom::Update'] + ([] if splitter else ['styleUrl'])
    items = []
    for doc in (0, 1):
        for upd in (0, 1, 2):      # outside, inside, after an Update
            for pc in PC:
                for cc in CC:
                    if cc == 'kmldom::Update' and (upd == 2 or pc not in ('kmldom::Placemark', 'kmldom::Folder')):
                        continue
                    for srcid in (0, 1):
                        if srcid and cc not in ('kmldom::Style', 'kmldom::StyleMap'):
                            continue
                        for text in (['#a', '#zz', 'x.kml#a', 'bad', ''] if cc == 'styleUrl' else ['']):
                            items.append((doc, upd, pc, cc, srcid, text, 0))
    if splitter:
        items += [(1, 0, pc, cc, 0, '', k) for pc in PC[:1] for cc in CC[:2] for k in (1, 2, 3)]

    def work(c, item):
        doc, upd, pc, cc, srcid, text, pre = item
        cl = C3(d)
        cl.text = S(text)
        ip = EInterp(d.db, cl)
        st = State()
        st.assume(T('srcid'), bool(srcid))
        O = ip.new_obj(st, cls)
        DOC, UPD = obj(st, 'DOC', 'kmldom::Document'), obj(st, 'UPD', 'kmldom::Update')
        PAR = obj(st, 'PARENT', pc)
        CH = obj(st, 'CHILD', 'kmldom::Field' if cc == 'styleUrl' else cc)
        OUT = obj(st, 'OUTER', 'kmldom::NetworkLinkControl')
        for x in (DOC, UPD, PAR, CH, OUT):
            st.mem[('exact', x)] = ONE
        cl.table[(CH, 'has_id')] = ('c', srcid)
        cl.table[(CH, 'get_id')] = T('childid')
        cl.table[(PAR, 'has_styleurl')] = T('hasurl')
        for o, k in ((DOC, 'Document'), (UPD, 'Update'), (PAR, pc.split('::')[-1]), (CH, cc.split('::')[-1]), (OUT, 'NetworkLinkControl')):
            cl.table[(o, 'Type')] = ('c', tv['Type_' + k])
        ml = ip.tmp(st, T('M0'))
        states = [x for x, _ in ip.run(ctors[0], O, [('p', ml)] if splitter else [], st)]
        mf = None
        if not splitter:
            mfs = [fl[0] for fl in ip.all_fields(cls) if 'map<' in ip.ty(fl[1]['t']).get('n', '').replace('std::', '')]
            if len(mfs) != 1:
                raise AnalysisBroken('style map of the inliner')
            mf = ('m', O, mfs[0])
            for x in states:
                x.mem[mf] = T('mapset', T('M0'), S('a'), T('OBJ', 'A'))
        else:
            mf = ml

        def ev(states, name, *objs):
            out = []
            for x in states:
                out += [y for y, _ in ip.call_virtual(x, name, cls, O, [('p', ip.tmp(x, o)) for o in objs])]
            return out
        if doc:
            states = ev(states, 'NewElement', DOC)
        if pc == 'kmldom::Document' and not doc:
            states = ev(states, 'NewElement', PAR)
        if pre == 2:
            D2 = obj(st, 'DOC2', 'kmldom::Document')
            for x in states:
                x.cls[D2] = 'kmldom::Document'
                x.assume(mk_nz(D2), True)
                x.mem[('exact', D2)] = ONE
            cl.table[(D2, 'Type')] = ('c', tv['Type_Document'])
            states = ev(states, 'NewElement', D2)
        if pre == 1:
            OTH = obj(st, 'OTHER', 'kmldom::Style')
            for x in states:
                x.cls[OTH] = 'kmldom::Style'
                x.assume(mk_nz(OTH), True)
                x.mem[('exact', OTH)] = ONE
            cl.table.update({(OTH, 'has_id'): ONE, (OTH, 'get_id'): S('_0'), (OTH, 'Type'): ('c', tv['Type_Style'])})
            states = ev(states, 'NewElement', OTH)
        if upd or cc == 'kmldom::Update':
            states = ev(states, 'NewElement', CH if cc == 'kmldom::Update' else UPD)
        if upd == 2:
            states = ev(states, 'EndElement', OUT, UPD)
            states = ev(states, 'AddChild', OUT, UPD)
        states = ev(states, 'NewElement', CH) if cc not in ('kmldom::Update', 'styleUrl') else states
        if pre == 3:
            # an earlier style has been split
            P2, C2 = T('OBJ', 'PARENT2'), T('OBJ', 'CHILD2')
            for x in states:
                for o, k in ((P2, pc), (C2, cc)):
                    x.cls[o] = k
                    x.assume(mk_nz(o), True)
                    x.mem[('exact', o)] = ONE
            cl.table.update({(C2, 'has_id'): ZERO, (P2, 'has_styleurl'): ZERO, (P2, 'Type'): cl.table[(PAR, 'Type')], (C2, 'Type'): cl.table[(CH, 'Type')]})
            states = [x for x in ev(states, 'EndElement', P2, C2) if any(e[0] == 'set_styleurl' for e in x.trace)]
            if not states:
                c.bad('S3', 'no style is ever split', d.db.functions[ip.lookup(cls, 'EndElement', 2)], 'no path splits a style')
                return
        rs = []
        for x in states:
            x.trace = ()
            m0 = x.mem[mf]
            for y, v in ip.call_virtual(x, 'EndElement', cls, O, [('p', ip.tmp(x, PAR)), ('p', ip.tmp(x, CH))]):
                y.mem[('m0',)] = m0
                rs.append((y, v))
        f = d.db.functions[ip.lookup(cls, 'EndElement', 2)]
        key = '%s %s in %s%s%s%s%s' % (cls.split('::')[-1], cc.split('::')[-1], pc.split('::')[-1], ', Document seen' if doc else '', ['', ', in Update', ', after Update'][upd],
                                        ', with id' if srcid else '', ' ' + text if text else '') + ['', ', id taken', ', second Document', ', second style'][pre]
        feature = pc in ('kmldom::Placemark', 'kmldom::Folder', 'kmldom::NetworkLink')
        sel = cc in ('kmldom::Style', 'kmldom::StyleMap')

        def expect_split(q, s):
            v, m0, m1 = s.mem[('ret',)], s.mem[('m0',)], s.mem[mf]
            tr = [e for e in s.trace]
            cand = upd != 1 and doc and sel and feature and not q(T('hasurl'))
            if cand:
                if q(mk_nz(v)):
                    # left alone: only when the id would collide
                    if tr or m1 != m0:
                        return 'a style is copied out but also left in its feature'
                    coll = pre == 1 or q.mem(m0, S('_1' if pre == 3 else '_0'))
                    return None if coll else 'a style that can be split is left in its feature'
                new = [e[1] for e in tr if e[0] == 'New']
                if len(new) != 1 or [e[2] for e in tr if e[0] == 'New'] != [cc.split('::')[-1]]:
                    return 'the shared style is not one new %s' % cc.split('::')[-1]
                n = new[0]
                if [e for e in tr if e[0] == 'MergeElements'] != [('MergeElements', CH, n)]:
                    return 'the content of the style is not given to the shared style'
                if [e for e in tr if e[0] == 'add_styleselector'] != [('add_styleselector', DOC, n)]:
                    return 'the shared style is not added to the first Document'
                u = [e for e in tr if e[0] == 'set_styleurl']
                fid = s.mem.get(('id', n))
                if fid is None:
                    return 'the shared style has no id'
                if len(u) != 1 or u[0][1] != PAR:
                    return 'the feature does not get a styleUrl'
                want = ('s', '#' + fid[1]) if fid[0] == 's' else T('cat', ('s', '#'), fid)
                if u[0][2] != want:
                    return 'the styleUrl %s of the feature does not name the shared style %s' % (pp(u[0][2]), pp(fid))
                if pre == 1 and fid == S('_0'):
                    return 'the id of the shared style is that of an earlier style'
                if q.mem(m0, fid):
                    return 'the id of the shared style is already used'
                if m1 != T('mapset', m0, fid, n):
                    return 'the shared style is not recorded under its id'
                return None
            if not q(mk_nz(v)):
                return 'a child that must stay is not added to its parent'
            return None if not tr and m1 == m0 else 'the document is changed although nothing may be split here'

        def expect_inline(q, s):
            v, m0, m1 = s.mem[('ret',)], s.mem[('m0',)], s.mem[mf]
            tr = [e for e in s.trace]
            inside = upd == 1 or cc == 'kmldom::Update'
            if not inside and pc == 'kmldom::Document' and sel and srcid:
                if q(mk_nz(v)) or tr:
                    return 'a shared style is not taken out of its Document'
                return None if m1 == T('mapset', m0, T('childid'), CH) else 'a shared style is not remembered under its id'
            if not inside and feature and cc == 'styleUrl':
                u = S(text)
                local = text[:1] in ('#', '')
                known = local and q.mem(m0, S(text[1:]))
                if known:
                    if [e for e in tr if e[0] == 'set_styleselector' and e[1] == PAR and e[2] == T('resolvedsel', u, m0)] and len(tr) == 1 and not q(mk_nz(v)) and m1 == m0:
                        return None
                    return 'a reference to a known shared style is not replaced by the resolved style'
            if not q(mk_nz(v)):
                return 'a child that must stay is not added to its parent'
            return None if not tr and m1 == m0 else 'the document is changed although nothing may be inlined here'
        report(c, rule, key, f, rs, expect_split if splitter else expect_inline)
    harness.parallel(chk, items, work)


def split(chk, d):
    observers(chk, d, True)


def inline(chk, d):
    observers(chk, d, False)


def entry(chk, d):
    for name, cls in (('SplitStyles', 'StyleSplitter'), ('InlineStyles', 'StyleInliner')):
        f = d.fn1('kmlengine::' + name)

        class C4(Cl):
            def call(self, ip, st, fr, g, this, args, node):
                if g['n'] == 'AddObserver':
                    st.trace = st.trace + (('Observer', this, st.cls.get(args[0])),)
                    return [(st, VOID)]
                if g['qn'] == 'kmldom::Parser::Parse':
                    v = self.vals(ip, st, g, args)
                    st.trace = st.trace + (('Parse', this, v[0], args[1]),)
                    return [(st, T('parsed', v[0]))]
                return super().call(ip, st, fr, g, this, args, node)
        ip = EInterp(d.db, C4(d))
        st = State()
        err = ('p', ip.tmp(st, S('')))
        rs = ip.run(f, None, [('p', ip.tmp(st, T('kml'))), err], st)

        def expect(q, s):
            tr = s.trace
            if len(tr) != 2 or tr[0][0] != 'Observer' or tr[1][0] != 'Parse' or tr[0][1] != tr[1][1] or tr[0][2] != 'kmlengine::' + cls:
                return 'the document is not parsed once under the rewriting observer'
            if tr[1][2:] != (T('kml'), err):
                return 'the parse does not get the document and the error string'
            return None if s.mem[('ret',)] == T('parsed', T('kml')) else 'the parsed document is not returned'
        report(chk, 'S5', name, f, rs, expect)


def run(chk, db):
    d = Dom(db)
    d.classes()
    chk.rule('S1', 'resolving a style merges, into a new Style, the shared style its styleUrl names and then its inline style; StyleMaps contribute the pairs of the state in order, '
                   'references inside a remote file are looked up in that file, unusable references are ignored and no more than the limit of references is followed')
    chk.rule('S2', 'the resolved selector has one pair per state with the style resolved for it')
    chk.rule('S3', 'the splitter moves an inline style of a feature outside Update, without styleUrl, into the first Document under an unused id and refers to it; everything else stays')
    chk.rule('S4', 'the inliner takes identified styles out of Documents and replaces local references to them by the resolved style; everything else, and everything inside Update, stays')
    chk.rule('S5', 'the entry points parse the document once under the observer')
    for g in (resolve, selector, split, inline, entry):
        guard(chk, g.__name__, g, chk, d)
    return {}
