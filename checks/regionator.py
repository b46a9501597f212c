"""Regionation: quadrants, the hierarchy of files, feature lists."""
from eng import *
from build import *
import harness, itertools
from harness import guard
from ids import getter
from kmz import S, method
from values import TCl, report, fns
from bounds import sym, order, lt, SIDES

RH, RG, FL = 'kmlregionator::RegionHandler', 'kmlregionator::Regionator', 'kmlconvenience::FeatureList'
LLAB, REG, LOD = 'kmldom::LatLonAltBox', 'kmldom::Region', 'kmldom::Lod'
QUADS = ('NW', 'NE', 'SW', 'SE')


def deep_copy(ip, st, o, parent=None, cnt=None):
    """an equal element tree apart from the given one, as a clone makes it"""
    cls = st.cls[o]
    n = st.mem.get(('copies',), ZERO)[1] + 1
    st.mem[('copies',)] = ('c', n)
    c = obj(st, 'copy%d' % n, cls)
    st.mem[('exact', c)] = ONE
    for k, x in list(st.mem.items()):
        if k[0] != 'm' or k[1] != o:
            continue
        if k[2].endswith('::parent_'):
            x = parent or ZERO
        elif x[:2] == ('t', 'OBJ') or x[0] == 'o':
            if x in st.cls and ip.is_sub(st.cls[x], ELEM):
                x = deep_copy(ip, st, x, c)
        elif x[0] == 'vec':
            x = ('vec', tuple(deep_copy(ip, st, y, c) if (y[:2] == ('t', 'OBJ') or y[0] == 'o') and y in st.cls and ip.is_sub(st.cls[y], ELEM) else y for y in x[1]))
        st.mem[('m', c, k[2])] = x
    return c


class RCl(TCl):
    """a region handler whose data is given; clones are copies"""
    def __init__(self, ask=None, feature=None):
        super().__init__()
        self.ask, self.feat = ask, feature

    def call(self, ip, st, fr, g, this, args, node):
        qn, n, cls = g['qn'], g['n'], g.get('cls', '')
        if qn == 'kmlengine::Clone':
            v = models.valarg(ip, st, g, 0, args)
            if v == ZERO:
                return [(st, ZERO)]
            if v in st.cls:
                return [(st, deep_copy(ip, st, v))]
        if cls and ip.is_sub(cls, RH) and n in ('HasData', 'GetFeature', 'SaveKml') and self.ask:
            v = [models.valarg(ip, st, g, i, args) for i in range(len(args))]
            if n == 'HasData':
                p = self.ask(ip, st, v[0])
                st.trace = st.trace + (('has', p, getter(ip, st, REG, 'get_id', v[0])),)
                return [(st, ONE if p[1] in self.data else ZERO)]
            if n == 'GetFeature':
                p = self.ask(ip, st, v[0])
                st.trace = st.trace + (('feature', p),)
                return [(st, self.feat[p[1]])] if p[1] in self.feat else [(st, ZERO)]
            st.trace = st.trace + (('save', v[0], v[1]),)
            return [(st, VOID)]
        if qn == 'kmlengine::ComputeBboxLookAt':
            st.trace = st.trace + (('lookat',) + tuple(getter(ip, st, 'kmlengine::Bbox', 'get_' + x, args[0]) for x in SIDES),)
            st, x = value_object(self.d, ip, st, 'kmldom::LookAt', 'LOOKAT')
            return [(st, x)]
        if qn == 'kmlengine::GetFeatureLatLon' and self.ask is None:
            v = models.valarg(ip, st, g, 0, args)
            p = self.pos.get(v)
            if p is None:
                return [(st, ZERO)]
            for a, x in zip(args[1:], p):
                if a != ZERO:
                    ip.store(st, ip.deref_loc(a), x, fr, node)
            return [(st, ONE)]
        if qn == 'kmlengine::Bbox::AlignBbox' and getattr(self, 'align', False):
            if args[0] == ZERO:
                return [(st, VOID)]
            o = args[0]
            st.trace = st.trace + (('align',) + tuple(getter(ip, st, 'kmlengine::Bbox', 'get_' + x, this) for x in SIDES) + tuple(getter(ip, st, 'kmlengine::Bbox', 'get_' + x, o) for x in SIDES),)
            for x in SIDES:
                r = ip.run(method(self.d, 'kmlengine::Bbox', 'set_' + x), o, [sym('aligned ' + x)], st)
                st = r[0][0]
            return [(st, VOID)]
        return super().call(ip, st, fr, g, this, args, node)


def quad(box, q):
    n, s, e, w = box
    half = ('c', 2.0)
    ml, mo = T('/', T('+', n, s), half), T('/', T('+', e, w), half)
    return (n if q[0] == 'N' else ml, ml if q[0] == 'N' else s, mo if q[1] == 'W' else e, w if q[1] == 'W' else mo)


def box_of_path(p):
    b = tuple(sym(x) for x in SIDES)
    for q in p:
        b = quad(b, q)
    return b


def box_of(ip, s, region):
    l = getter(ip, s, REG, 'get_latlonaltbox', region)
    if l == ZERO:
        return None
    return tuple(getter(ip, s, LLAB, 'get_' + x, l) for x in SIDES)


def region(d, ip, st, name, lod=True, alt=True, box=True):
    calls = []
    if box:
        st, l = element(d, ip, st, 'LatLonAltBox', name + 'box', *([('set_' + x, sym(x)) for x in SIDES] + ([('set_minaltitude', sym('minalt')), ('set_maxaltitude', sym('maxalt')), ('set_altitudemode', ('c', 1))] if alt else [])))
        calls.append(('set_latlonaltbox', l))
    if lod:
        st, l = element(d, ip, st, 'Lod', name + 'lod', ('set_minlodpixels', sym('minlod')), ('set_maxlodpixels', sym('maxlod')), ('set_minfadeextent', sym('minfade')))
        calls.append(('set_lod', l))
    return element(d, ip, st, 'Region', name, *calls)


EXTRAS = [(LLAB, 'minaltitude'), (LLAB, 'maxaltitude'), (LLAB, 'altitudemode'), (LOD, 'minlodpixels'), (LOD, 'maxlodpixels'), (LOD, 'minfadeextent'), (LOD, 'maxfadeextent')]


def same_extras(ip, s, a, b):
    """altitudes and level of detail of two regions"""
    for c, f in EXTRAS:
        n = 'latlonaltbox' if c == LLAB else 'lod'
        x, y = getter(ip, s, REG, 'get_' + n, a), getter(ip, s, REG, 'get_' + n, b)
        if (x == ZERO) != (y == ZERO):
            return '%s is %s' % (n, 'missing' if y == ZERO else 'added')
        if x == ZERO:
            continue
        if x == y:
            return '%s is shared, not copied' % n
        for g in ('has_', 'get_'):
            if getter(ip, s, c, g + f, x) != getter(ip, s, c, g + f, y):
                return '%s is not that of the parent' % f
    return None


def quadrants(chk, d):
    f = fns(d, 'kmlregionator::CreateChildRegion')
    if len(f) != 1:
        raise AnalysisBroken('CreateChildRegion not found')
    f = f[0]
    val = {k: ('c', x) for k, x in d.db.enums['kmlregionator::quadrant_t']['e']}
    for q in QUADS:
        for lod, alt, bx in ((1, 1, 1), (0, 1, 1), (1, 0, 1), (1, 0, 0), (0, 0, 0)):
            ip = EInterp(d.db, RCl())
            st, r = region(d, ip, State(), 'R', lod, alt, bx)
            rs = ip.run(f, None, [('p', ip.tmp(st, r)), val[q]], st)

            def expect(qq, s):
                c = s.mem[('ret',)]
                c = ip.load(s, c[1]) if c[0] == 'p' else c
                if c == ZERO or c == r:
                    return 'gives no new region'
                b = box_of(ip, s, c)
                if bx:
                    if b is None:
                        return 'the child has no box'
                    for n, g, w in zip(SIDES, b, quad(tuple(sym(x) for x in SIDES), q)):
                        if not feq(g, w):
                            return '%s of the %s quadrant is %s instead of %s' % (n, q, pp(g), pp(w))
                elif b is not None:
                    return 'the child has a box'
                if box_of(ip, s, r) is not None and tuple(box_of(ip, s, r)) != tuple(sym(x) for x in SIDES):
                    return 'the parent region is changed'
                return same_extras(ip, s, r, c)
            report(chk, 'R1', '%s child of a region%s%s%s' % (q, ' with Lod' if lod else '', ', altitudes' if alt else '', '' if bx else ', no box'), f, rs, expect, ip)


def trees():
    """sets of regions with data, as paths"""
    R = ()
    out = [[], [R]]
    out += [[R, (q,)] for q in QUADS]
    out += [[R] + [(q,) for q in c] for c in itertools.combinations(QUADS, 2)]
    out += [[R] + [(q,) for q in c] for c in itertools.combinations(QUADS, 3)]
    out += [[R] + [(q,) for q in QUADS]]
    out += [[R, (a,), (a, b)] for a in QUADS for b in QUADS]
    out += [[R, ('NW',), ('SE',), ('NW', 'SE'), ('SE', 'NW')], [R, ('NE',), ('NE', 'NE'), ('NE', 'NE', 'NE'), ('NE', 'NE', 'NE', 'NE')], [R, ('SW',), ('SE',), ('SE', 'SW'), ('SE', 'SE'), ('SE', 'SW', 'NE')]]
    return out


def hierarchy(chk, d):
    ctorf = ctor(d, RG, 2)
    f = method(d, RG, 'Regionate')
    items = []
    for i, t in enumerate(trees()):
        for outdir, root, nat in (((0, 0, 0),) if i > 8 else ((0, 0, 0), (1, 1, 0), (1, 0, 1), (0, 1, 1))):
            items.append((t, outdir, root, nat))

    def one(c, it):
        data, outdir, root, nat = it
        cl = RCl()
        ip = EInterp(d.db, cl)
        ip.recursion_limit = 8
        ip.max_depth = 90
        paths = {p + q for p in data for q in [(x,) for x in QUADS] + [()]} | {()}
        boxes = {p: box_of_path(p) for p in paths}

        def ask(ip, s, r):
            b = box_of(ip, s, r)
            if b is not None:
                for p, w in boxes.items():
                    if all(feq(x, y) for x, y in zip(b, w)):
                        return ('path', p)
            return ('path', None)
        cl.ask, cl.data, cl.feat, cl.d = ask, set(data), {}, d
        st, r = region(d, ip, State(), 'R')
        for p in data:
            st, o = element(d, ip, st, 'Folder', 'data ' + '/'.join(p))
            cl.feat[p] = o
        h = obj(st, 'HANDLER', RH)
        g = obj(st, 'RG', RG)
        st.mem[('exact', g)] = ONE
        st = single(ip.run(ctorf, g, [h, ('p', ip.tmp(st, r))], st), 'Regionator constructor')[0]
        if root:
            st, _ = do(ip, st, g, RG, 'SetRootFilename', S('root.kml'))
        if nat:
            st, nr = element(d, ip, st, 'LatLonAltBox', 'NATBOX', *[('set_' + x, sym('nat' + x)) for x in SIDES])
            st, nr = element(d, ip, st, 'Region', 'NAT', ('set_latlonaltbox', nr))
            st, _ = do(ip, st, g, RG, 'SetNaturalRegion', nr)
        key = 'regions with data: %s%s%s%s' % (', '.join('/'.join(p) or 'root' for p in data) or 'none', '; output directory' if outdir else '', '; root file name' if root else '', '; natural region' if nat else '')
        rs = ip.run(f, g, [S('dir') if outdir else ZERO], st)

        def expect(q, s):
            tr = [e for e in s.trace if e[0] in ('has', 'feature', 'save', 'lookat')]
            asked = [e[1][1] for e in tr if e[0] == 'has']
            if None in asked:
                return 'a region is visited that is not a quadrant of its parent'
            if len(asked) != len(set(asked)):
                return 'a region is visited twice'
            want = {()} | {p + (x,) for p in data for x in QUADS}
            if set(asked) != want:
                return '%d regions are visited instead of %d' % (len(asked), len(want))
            idl = [e[2] for e in tr if e[0] == 'has']
            if len(set(idl)) != len(idl) or S('') in idl:
                return 'two regions have the same id'
            fe = [e[1][1] for e in tr if e[0] == 'feature']
            if sorted(fe) != sorted(data):
                return 'the data of %d regions is asked for instead of %d' % (len(fe), len(data))
            saves = [e for e in tr if e[0] == 'save']
            if len(saves) != len(data):
                return '%d files are saved instead of %d' % (len(saves), len(data))
            files = {}
            for _, kml, fname in saves:
                doc = getter(ip, s, 'kmldom::Kml', 'get_feature', kml)
                if doc == ZERO or s.cls.get(doc) != 'kmldom::Document':
                    return 'a file holds no Document'
                p = ask(ip, s, getter(ip, s, 'kmldom::Document', 'get_region', doc))[1]
                if p not in cl.data or p in files:
                    return 'a file has the region of another file or of none'
                files[p] = (doc, fname)
            names = [n for _, n in files.values()]
            if len(set(names)) != len(names) or any(n[0] != 's' for n in names):
                return 'two files have the same name'
            pre = 'dir/' if outdir else ''
            for p, (doc, fname) in files.items():
                if not fname[1].startswith(pre):
                    return 'a file is not saved in the output directory'
            rel = {p: fname[1][len(pre):] for p, (doc, fname) in files.items()}
            if root and () in rel and rel[()] != 'root.kml':
                return 'the root file is %s' % rel[()]
            for p, (doc, fname) in files.items():
                rg = getter(ip, s, 'kmldom::Document', 'get_region', doc)
                why = same_extras(ip, s, r, rg)
                if why:
                    return 'region of %s: %s' % ('/'.join(p) or 'root', why)
                n = getter(ip, s, 'kmldom::Document', 'get_feature_array_size', doc)
                if n[0] != 'c':
                    return 'a document has an unknown number of features'
                feats = [ip.load_feature(s, doc, i) for i in range(n[1])]
                links, other = {}, []
                for x in feats:
                    if s.cls.get(x) == 'kmldom::NetworkLink':
                        t = getter(ip, s, 'kmldom::NetworkLink', 'get_region', x)
                        cp = ask(ip, s, t)[1] if t != ZERO else None
                        if cp is None or cp in links:
                            return 'a link has the region of another link or of none'
                        why = same_extras(ip, s, r, t)
                        if why:
                            return 'region of a link: %s' % why
                        l = getter(ip, s, 'kmldom::NetworkLink', 'get_link', x)
                        if l == ZERO:
                            return 'a link has no address'
                        links[cp] = getter(ip, s, 'kmldom::Link', 'get_href', l)
                        if getter(ip, s, 'kmldom::Link', 'get_viewrefreshmode', l) != VRM[0]:
                            return 'a link is not loaded by region'
                    else:
                        other.append(x)
                kids = [k for k in cl.data if len(k) == len(p) + 1 and k[:len(p)] == p]
                if set(links) != set(kids):
                    return 'the file of %s links to %s instead of %s' % ('/'.join(p) or 'root', sorted('/'.join(k) for k in links), sorted('/'.join(k) for k in kids))
                for k, href in links.items():
                    if href != S(rel[k]):
                        return 'the link to %s names %s, its file is %s' % ('/'.join(k), pp(href), rel[k])
                if other != [cl.feat[p]]:
                    return 'the file of %s does not hold exactly its data' % ('/'.join(p) or 'root')
                al = getter(ip, s, 'kmldom::Document', 'get_atomlink', doc)
                if al == ZERO or getter(ip, s, 'kmldom::AtomLink', 'get_href', al) != S(rel[()]):
                    return 'the file of %s does not name the root file' % ('/'.join(p) or 'root')
                if getter(ip, s, 'kmldom::AtomLink', 'get_rel', al) != S('up' if p else 'self'):
                    return 'the relation of %s to the root file is wrong' % ('/'.join(p) or 'root')
                view = getter(ip, s, 'kmldom::Document', 'get_abstractview', doc)
                if (view != ZERO) != bool(nat and not p):
                    return 'the file of %s %s a view' % ('/'.join(p) or 'root', 'has' if view != ZERO else 'lacks')
            if nat and data:
                la = [e for e in tr if e[0] == 'lookat']
                if [tuple(e[1:]) for e in la] != [tuple(sym('nat' + x) for x in SIDES)]:
                    return 'the view of the root file is not that of the natural region'
            if box_of(ip, s, r) != tuple(sym(x) for x in SIDES):
                return 'the given region is changed'
            return None
        report(c, 'R2', key, f, rs, expect, ip)
    VRM = [None]
    for e in d.db.enums.values():
        for k, x in e['e']:
            if k == 'VIEWREFRESHMODE_ONREGION':
                VRM[0] = ('c', x)
    if VRM[0] is None:
        raise AnalysisBroken('VIEWREFRESHMODE_ONREGION not found')
    harness.parallel(chk, items, one)


def load_feature(self, s, doc, i):
    return getter_at(self, s, 'kmldom::Document', 'get_feature_array_at', doc, i)


def getter_at(ip, s, cls, name, o, i):
    f = None
    todo = [cls]
    while todo and f is None:
        c = todo.pop(0)
        r = ip.db.records[c]
        for m in r['methods']:
            g = ip.db.functions[m]
            if g['n'] == name and 'body' in g and len(g['params']) == 1:
                f = g
        todo += [b['n'] if isinstance(b, dict) else b for b in r.get('bases', [])]
    x, v = single(ip.run(f, o, [('c', i)], s.copy()), name)
    return ip.load(x, v[1]) if v[0] == 'p' else v


EInterp.load_feature = load_feature


def aligned(chk, d):
    f = fns(d, 'kmlregionator::CreateAlignedAbstractLatLonBox')
    if len(f) != 1:
        raise AnalysisBroken('CreateAlignedAbstractLatLonBox not found')
    f = f[0]
    for a, b in ((1, 1), (0, 1), (1, 0)):
        cl = RCl()
        cl.align, cl.d = True, d
        ip = EInterp(d.db, cl)
        st, x = element(d, ip, State(), 'LatLonAltBox', 'X', *[('set_' + n, sym(n)) for n in SIDES])
        st, y = element(d, ip, st, 'LatLonAltBox', 'Y')
        rs = ip.run(f, None, [refarg(ip, st, f['params'][0], x if a else ZERO), refarg(ip, st, f['params'][1], y if b else ZERO)], st)

        def expect(q, s):
            r = q(mk_nz(s.mem[('ret',)]))
            ev = [e for e in s.trace if e[0] == 'align']
            if not a or not b:
                return None if not r else 'succeeds without a box'
            lim = lambda v, hi: not lt(s, ('c', 180.0), v) if hi else not lt(s, v, ('c', -180.0))
            inside = lim(sym('north'), 1) and lim(sym('south'), 0) and lim(sym('east'), 1) and lim(sym('west'), 0)
            if not r:
                return None if not ev else 'fails after aligning'
            if len(ev) != 1:
                return 'succeeds without aligning'
            if ev[0][1:5] != tuple(sym(n) for n in SIDES):
                return 'another box is aligned'
            if [z[1] for z in ev[0][5:]] != [180, -180, 180, -180]:
                return 'the quadtree is not that of the whole globe'
            if tuple(getter(ip, s, LLAB, 'get_' + n, y) for n in SIDES) != tuple(sym('aligned ' + n) for n in SIDES):
                return 'the result is not the aligned box'
            return None
        report(chk, 'R1', 'aligned box%s%s' % ('' if a else ', no box given', '' if b else ', no place for the result'), f, rs, expect, ip)


    f = method(d, RG, 'RegionateAligned')
    for data in ((), ((),)):
        cl = RCl()
        ip = EInterp(d.db, cl)
        ip.max_depth = 90
        ab = tuple(sym('aligned ' + x) for x in SIDES)

        def ask(ip, s, r):
            b = box_of(ip, s, r)
            if b is None:
                return ('path', None)
            if all(feq(x, y) for x, y in zip(b, ab)):
                return ('path', (), r)
            return ('path', [q for q in QUADS if all(feq(x, y) for x, y in zip(b, quad(ab, q)))] and 'child' or None)
        cl.ask, cl.data, cl.feat, cl.d, cl.align = ask, set(data), {}, d, True
        st, r = region(d, ip, State(), 'R')
        for p in data:
            st, o = element(d, ip, st, 'Folder', 'data')
            cl.feat[p] = o
        h = obj(st, 'HANDLER', RH)
        rs = ip.run(f, None, [h, ('p', ip.tmp(st, r)), ZERO], st)

        def expect(q, s):
            ok = q(mk_nz(s.mem[('ret',)]))
            has = [e for e in s.trace if e[0] == 'has']
            if not ok:
                return 'fails after visiting a region' if has else None
            if not has or has[0][1][1] != ():
                return 'the hierarchy does not begin with the aligned region'
            if [e for e in has if e[1][1] is None]:
                return 'a region is visited that is no quadrant'
            why = same_extras(ip, s, r, has[0][1][2])
            if why:
                return 'the aligned region: ' + why
            if box_of(ip, s, r) != tuple(sym(x) for x in SIDES):
                return 'the given region is changed'
            la = [tuple(e[1:]) for e in s.trace if e[0] == 'lookat']
            if la != [tuple(sym(x) for x in SIDES)] * len(data):
                return 'the view of the root file is not that of the given region'
            return None
        report(chk, 'R1', 'aligned hierarchy%s' % (', data in the root' if data else ''), f, rs, expect, ip)


def lists(chk, d):
    field_ = lambda ip: [k for k, x in ip.all_fields(FL) if 'list<' in ip.ty(x['t']).get('n', '')][0]
    # splitting by bounds
    f = method(d, FL, 'BboxSplit')
    items = []
    for n in range(4):
        for pos in itertools.product((0, 1), repeat=n):
            for mx in (0, 1, 2, 5):
                for out in (0, 1):
                    items.append((pos, mx, out))

    def mk(ip, n):
        st = State()
        fs = []
        for i in range(n):
            st, o = element(d, ip, st, 'Placemark', 'F%d' % i)
            fs.append(o)
        L = obj(st, 'LIST', FL)
        st.mem[('m', L, field_(ip))] = ('vec', tuple(fs))
        return st, L, fs

    def inside(s, p):
        return not lt(s, sym('north'), p[0]) and not lt(s, p[0], sym('south')) and not lt(s, sym('east'), p[1]) and not lt(s, p[1], sym('west'))

    def split(c, it):
        pos, mx, out = it
        cl = RCl()
        ip = EInterp(d.db, cl)
        ip.max_states = 2000
        ip.loop_states = 2000
        st, L, fs = mk(ip, len(pos))
        cl.pos = {o: (sym('lat%d' % i), sym('lon%d' % i)) for i, o in enumerate(fs) if pos[i]}
        O = obj(st, 'OUT', FL)
        st.mem[('m', O, field_(ip))] = ('vec', (T('first'),))
        st, B = value_object(d, ip, st, 'kmlengine::Bbox', 'B', [sym(x) for x in SIDES])
        rs = ip.run(f, L, [B, ('c', mx), O if out else ZERO], st)

        def expect(q, s):
            if not consistent(s):
                return None
            taken, kept = [], []
            for i, o in enumerate(fs):
                if pos[i] and (mx == 0 or len(taken) < mx) and inside(s, cl.pos[o]):
                    taken.append(o)
                else:
                    kept.append(o)
            left = ip.load(s, ('m', L, field_(ip)))
            got = ip.load(s, ('m', O, field_(ip)))
            if left != ('vec', tuple(kept)):
                return 'the list keeps %s instead of %s' % (pp(left), pp(('vec', tuple(kept))))
            w = ('vec', (T('first'),) + tuple(taken if out else ()))
            if got != w:
                return 'the output list is %s instead of %s' % (pp(got), pp(w))
            r = s.mem[('ret',)]
            return None if r == ('c', len(taken)) else 'says %s were moved instead of %d' % (pp(r), len(taken))
        report(c, 'R3', 'splitting %d features (positions: %s), at most %s%s' % (len(pos), ''.join('yn'[not p] for p in pos), mx or 'all', '' if out else ', no output list'), f, rs, expect, ip)
    harness.parallel(chk, items, split)
    # by region
    f = method(d, FL, 'RegionSplit')
    for kind in ('region', 'no box', 'none'):
        cl = RCl()
        cl.events = {FL + '::BboxSplit': lambda ip, st, fr, g, this, args, node: split_ev(ip, st, this, args)}
        ip = EInterp(d.db, cl)
        st, L, fs = mk(ip, 1)
        st, r = region(d, ip, st, 'R', box=kind == 'region')
        O = obj(st, 'OUT', FL)
        rs = ip.run(f, L, [('p', ip.tmp(st, ZERO if kind == 'none' else r)), T('max'), O], st)

        def expect(q, s):
            ev = [e for e in s.trace if e[0] == 'split']
            if kind != 'region':
                return None if not ev and s.mem[('ret',)] == ZERO else 'features are moved although there is no box'
            if ev != [('split', L, tuple(sym(x) for x in SIDES), T('max'), O)]:
                return 'splits by %s' % pp(tuple(ev))[:150]
            return None if s.mem[('ret',)] == T('moved') else 'gives %s' % pp(s.mem[('ret',)])
        report(chk, 'R3', 'splitting by %s' % ('a region' if kind == 'region' else 'a region without a box' if kind == 'no box' else 'no region'), f, rs, expect, ip)
    # saving, size, bounds, adding
    for n in range(4):
        cl = RCl()
        ip = EInterp(d.db, cl)
        st, L, fs = mk(ip, n)
        st, fo = element(d, ip, st, 'Folder', 'FOLDER')
        f = method(d, FL, 'Save')
        rs = ip.run(f, L, [refarg(ip, st, f['params'][0], fo)], st)

        def expect(q, s):
            k = getter(ip, s, 'kmldom::Folder', 'get_feature_array_size', fo)
            got = [getter_at(ip, s, 'kmldom::Folder', 'get_feature_array_at', fo, i) for i in range(k[1])]
            if got != fs:
                return 'the container gets %d features instead of %d, or in another order' % (len(got), n)
            return None if s.mem[('ret',)] == ('c', n) else 'says %s were saved' % pp(s.mem[('ret',)])
        report(chk, 'R3', 'saving %d features' % n, f, rs, expect, ip)
        st, L, fs = mk(ip, n)
        f = method(d, FL, 'Size')
        report(chk, 'R3', 'size of a list of %d' % n, f, ip.run(f, L, [], st), lambda q, s: None if s.mem[('ret',)] == ('c', n) else 'says %s' % pp(s.mem[('ret',)]), ip)
        for nul in (0, 1):
            st, L, fs = mk(ip, n)
            st, o = element(d, ip, st, 'Placemark', 'NEW')
            f = method(d, FL, 'PushBack')
            report(chk, 'R3', 'adding %s to %d' % ('nothing' if nul else 'a feature', n), f, ip.run(f, L, [('p', ip.tmp(st, ZERO if nul else o))], st),
                   lambda q, s: None if ip.load(s, ('m', L, field_(ip))) == ('vec', tuple(fs) + (() if nul else (o,))) else 'the list is wrong', ip)
        for pos in itertools.product((0, 1), repeat=n):
            cl = RCl()
            cl.events = {'kmlengine::Bbox::ExpandLatLon': True}
            ip = EInterp(d.db, cl)
            st, L, fs = mk(ip, n)
            cl.pos = {o: (sym('lat%d' % i), sym('lon%d' % i)) for i, o in enumerate(fs) if pos[i]}
            B = obj(st, 'B', 'kmlengine::Bbox')
            f = method(d, FL, 'ComputeBoundingBox')
            rs = ip.run(f, L, [B], st)
            w = [('ExpandLatLon', B) + cl.pos[o] for o in fs if o in cl.pos]
            report(chk, 'R3', 'bounds of %d features (positions: %s)' % (n, ''.join('yn'[not p] for p in pos)), f, rs, lambda q, s: None if sorted(e for e in s.trace if e[0] == 'ExpandLatLon') == sorted(w) else 'the bounds are not those of the features', ip)
    # order by score
    cmpf = [g for g in d.db.functions.values() if g.get('cls') == 'kmlconvenience::CompareFeatures' and g.get('op') == '()' and 'body' in g]
    for g in cmpf:
        cl = RCl()
        sc = lambda ip, st, fr, g, this, args, node: [(st, T('score', models.valarg(ip, st, g, 0, args)))]
        cl.events = {'kmlconvenience::GetFeatureScore': sc}
        ip = EInterp(d.db, cl)
        st, L, fs = mk(ip, 2)
        o = obj(st, 'CMP', 'kmlconvenience::CompareFeatures')
        rs = ip.run(g, o, [('p', ip.tmp(st, x)) for x in fs], st)

        def expect(q, s):
            r = q(mk_nz(s.mem[('ret',)]))
            w = q(mk_lt(T('score', fs[1]), T('score', fs[0])))
            return None if r == w else 'a feature is %splaced before one with %s score' % ('' if r else 'not ', 'a lower' if w else 'the same or a higher')
        report(chk, 'R3', 'order of features', g, rs, expect, ip)
    f = fns(d, 'kmlconvenience::GetFeatureScore')
    for g in f:
        cl = RCl()

        def ged(ip, st, fr, g, this, args, node):
            out = []
            for x, b in ip.split(st, T('scored'), fr, node):
                if b:
                    ip.store(x, ip.deref_loc(args[2]), T('txt', models.valarg(ip, x, g, 0, args), models.valarg(ip, x, g, 1, args)), fr, node)
                out.append((x, ONE if b else ZERO))
            return out
        cl.events = {'kmlconvenience::GetExtendedDataValue': ged}
        ip = EInterp(d.db, cl)
        st, L, fs = mk(ip, 1)
        rs = ip.run(g, None, [('p', ip.tmp(st, fs[0]))] if ip.ty(g['params'][0]['t']).get('ref') else [fs[0]], st)

        def expect(q, s):
            r = s.mem[('ret',)]
            if not q(T('scored')):
                return None if r == ZERO else 'a feature without a score has the score %s' % pp(r)
            if not mentions(r, lambda t: t[:2] == ('t', 'txt') and t[2] == fs[0] and t[3] == S('kml.FeatureScore')):
                return 'the score is %s' % pp(r)
            return None
        for s, v in rs:
            s.mem[('ret',)] = v
            b = judge(s, expect)
            chk.bad('R3', 'score of a feature', where(g), b) if b else chk.ok('R3', 'score of a feature')
    # the handler of feature lists keeps the features of each region apart
    H = 'kmlregionator::FeatureListRegionHandler'
    hd, gf = method(d, H, 'HasData'), method(d, H, 'GetFeature')
    for moved in (0, 1, 2):
        cl = RCl()
        ip = EInterp(d.db, cl)
        st, r1 = region(d, ip, State(), 'R1')
        st, _ = do(ip, st, r1, REG, 'set_id', S('q01'))
        st, r2 = region(d, ip, st, 'R2')
        st, _ = do(ip, st, r2, REG, 'set_id', S('q02'))
        fs = []
        for i in range(2 * moved):
            st, o = element(d, ip, st, 'Placemark', 'F%d' % i)
            fs.append(o)

        def rsplit(ip, st, fr, g, this, args, node):
            k = sum(1 for e in st.trace if e[0] == 'rsplit')
            out = args[2]
            st.trace = st.trace + (('rsplit', this, models.valarg(ip, st, g, 0, args), args[1], out),)
            l = ('m', out, field_(ip))
            cur = st.mem.get(l, ('vec', ()))
            st.mem[l] = ('vec', (cur[1] if cur[0] == 'vec' else ()) + tuple(fs[k * moved:(k + 1) * moved]))
            return [(st, ('c', moved))]
        cl.events = {FL + '::RegionSplit': rsplit}
        lst = obj(st, 'LIST', FL)
        h = obj(st, 'H', H)
        st.mem[('exact', h)] = ONE
        cf = [d.db.functions[m] for m in d.db.records[H]['methods'] if d.db.functions[m]['kind'] == 'ctor' and len(d.db.functions[m]['params']) == 1 and 'body' in d.db.functions[m] and not d.db.functions[m].get('copy')]
        st = single(ip.run(cf[0], h, [lst], st), 'handler constructor')[0]
        x = [(st, ZERO)]
        ret = []
        for r in (r1, r2):
            x = [(s2, v2) for s, _ in x for s2, v2 in ip.run(hd, h, [('p', ip.tmp(s, r))], s)]
            ret.append([v2 for _, v2 in x])

        def expect(q, s):
            if any(mk_nz(v) != (ONE if moved else ZERO) for vs in ret for v in vs):
                return 'says %s' % ('no data' if moved else 'data')
            for k, r in enumerate((r1, r2)):
                if not moved:
                    continue
                s2, v2 = single(ip.run(gf, h, [('p', ip.tmp(s, r))], s.copy()), 'GetFeature')
                v2 = ip.load(s2, v2[1]) if v2[0] == 'p' else v2
                if v2 == ZERO or v2 not in s2.cls:
                    return 'a region with data has no feature'
                n = getter(ip, s2, s2.cls[v2], 'get_feature_array_size', v2)
                got = [getter_at(ip, s2, s2.cls[v2], 'get_feature_array_at', v2, i) for i in range(n[1])]
                if got != fs[k * moved:(k + 1) * moved]:
                    return 'a region shows %d features instead of its own %d' % (len(got), moved)
            if len({e[1] for e in s.trace if e[0] == 'rsplit'}) != 1:
                return 'two lists are split'
            return None
        report(chk, 'R3', 'features of two regions, %d each' % moved, hd, x, expect, ip)


def split_ev(ip, st, this, args):
    st.trace = st.trace + (('split', this, tuple(getter(ip, st, 'kmlengine::Bbox', 'get_' + x, args[0]) for x in SIDES), args[1], args[2]),)
    return [(st, T('moved'))]


def run(chk, db):
    d = Dom(db)
    d.classes()
    chk.rule('R1', 'a child region is exactly the named quadrant of its parent, with the altitudes and level of detail of the parent')
    chk.rule('R2', 'every region with data gets one file: its own region, its data, and a region link to the file of each child with data and to no other')
    chk.rule('R3', 'splitting a feature list moves exactly the features inside the bounds, in order and at most as many as asked for, and loses none')
    for g in (quadrants, aligned, hierarchy, lists):
        guard(chk, g.__name__, g, chk, d)
    return {}
