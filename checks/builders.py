"""Functions that build elements from values, look values up in Atom and KML elements, collect features."""
from eng import *
from build import *
import harness, itertools, math
from harness import guard
from ids import getter
from kmz import S, method
from values import TCl, fns, Vec, odd
import values
from bounds import sym, SIDES, lt
from regionator import deep_copy, getter_at

K = 'kmldom::'


class BuCl(TCl):
    def call(self, ip, st, fr, g, this, args, node):
        qn = g['qn']
        if g['n'] in ('sqrt', 'pow', 'tan', 'sin', 'cos', 'asin', 'atan2', 'fabs', 'fmod') and qn in (g['n'], 'std::' + g['n']) and getattr(self, 'numbers', False):
            v = [models.valarg(ip, st, g, i, args) for i in range(len(args))]
            if all(x[0] == 'c' for x in v):
                return [(st, ('c', float(getattr(math, g['n'])(*[x[1] for x in v]))))]
        if qn == 'kmlengine::Clone':
            v = models.valarg(ip, st, g, 0, args)
            if v == ZERO:
                return [(st, ZERO)]
            if v in st.cls:
                return [(st, deep_copy(ip, st, v))]
        if qn == 'kmlbase::StringEndsWith' and not getattr(self, 'deep', False):
            a, b = models.valarg(ip, st, g, 0, args), models.valarg(ip, st, g, 1, args)
            if a[0] == 's' and b[0] == 's':
                return [(st, ONE if a[1] and b[1] and a[1].endswith(b[1]) else ZERO)]
        return super().call(ip, st, fr, g, this, args, node)


def value(ip, s, v):
    return ip.load(s, v[1]) if v[0] == 'p' else v


def report(chk, key, f, rs, expect, ip):
    values.report(chk, 'B1', key, f, rs, expect, ip)


def path(ip, s, o, names):
    """follow getters; -> value or a message"""
    for n in names:
        if o == ZERO or o not in s.cls:
            return None
        if isinstance(n, tuple):
            k = getter(ip, s, s.cls[o], n[0] + '_size', o)
            if k[0] != 'c' or k[1] <= n[1]:
                return None
            o = getter_at(ip, s, s.cls[o], n[0] + '_at', o, n[1])
        else:
            o = getter(ip, s, s.cls[o], 'get_' + n, o)
    return o


def tuples(ip, d, s, co):
    """tuples of a Coordinates element"""
    fl = [k for k, x in ip.all_fields(K + 'Coordinates') if 'vector<kmlbase::Vec3' in ip.ty(x['t']).get('n', '')][0]
    v = ip.load(s, ('m', co, fl))
    return [Vec(d, ip).of(s, x) for x in v[1]] if v[0] == 'vec' else None


def vec3(d, ip, st, name, alt=True):
    return value_object(d, ip, st, 'kmlbase::Vec3', name, [sym('lon'), sym('lat')] + ([sym('alt')] if alt else []))


def simple(chk, d):
    """each argument of a builder ends in its own field"""
    def build(name, args, want, cls=None, setup=None, opt='', absent=()):
        cands = [g for g in fns(d, 'kmlconvenience::' + name) if len(g['params']) == len(args)]
        if len(cands) != 1:
            chk.unk('B1', name, 'not found')
            return
        f = cands[0]
        ip = EInterp(d.db, BuCl())
        st = State()
        if setup:
            st, args = setup(ip, st)
        a = [refarg(ip, st, p, x) for p, x in zip(f['params'], args)]
        rs = ip.run(f, None, a, st)

        def expect(q, s):
            o = value(ip, s, s.mem[('ret',)])
            if o == ZERO or o not in s.cls:
                return 'gives nothing'
            if cls and s.cls[o] != K + cls:
                return 'gives a %s' % s.cls[o]
            for p, w in want:
                if p and p[-1] == '*':
                    co = path(ip, s, o, p[:-1])
                    got = tuples(ip, d, s, co) if co else None
                    if got != w:
                        return 'the coordinates are wrong'
                    continue
                got = path(ip, s, o, p)
                if callable(w):
                    r = w(ip, s, got)
                    if r:
                        return r
                elif got != w:
                    return '%s is %s instead of %s' % ('/'.join(str(x) for x in p), pp(got) if got else 'missing', pp(w))
            for p in absent:
                x = path(ip, s, o, p)
                if x is not None and x != ZERO:
                    return '%s is set' % '/'.join(p)
            return None
        report(chk, name + opt, f, rs, expect, ip)
    T_ = T
    mode = ('c', 1)
    cam = ['latitude', 'longitude', 'altitude', 'heading', 'tilt', 'roll']
    build('CreateCamera', [sym(x) for x in cam] + [mode], [((x,), sym(x)) for x in cam] + [(('altitudemode',), mode)], 'Camera')
    la = ['latitude', 'longitude', 'altitude', 'heading', 'tilt', 'range']
    build('CreateLookAt', [sym(x) for x in la] + [mode], [((x,), sym(x)) for x in la] + [(('altitudemode',), mode)], 'LookAt')
    build('CreateDataNameValue', [T('n'), T('v')], [(('name',), T('n')), (('value',), T('v'))], 'Data')
    build('CreatePointLatLon', [sym('lat'), sym('lon')], [(('coordinates', '*'), [(sym('lon'), sym('lat'), None)])], 'Point')
    build('CreatePointPlacemark', [T('n'), sym('lat'), sym('lon')], [(('name',), T('n')), (('geometry', 'coordinates', '*'), [(sym('lon'), sym('lat'), None)])], 'Placemark')
    for alt in (0, 1):
        def su(ip, st):
            st, v = vec3(d, ip, st, 'V', alt)
            return st, [v]
        build('CreatePointFromVec3', [0], [(('coordinates', '*'), [(sym('lon'), sym('lat'), sym('alt') if alt else None)])], 'Point', su, ' with altitude' if alt else '')

        def su2(ip, st):
            st, v = vec3(d, ip, st, 'V', alt)
            return st, [T('target'), v, sym('duration')]
        build('CreateAnimatedUpdateChangePoint', [0, 0, 0], [(('gx_duration',), sym('duration')), (('update', ('get_updateoperation_array', 0), ('get_object_array', 0), 'targetid'), T('target')),
              (('update', ('get_updateoperation_array', 0), ('get_object_array', 0), 'geometry', 'coordinates', '*'), [(sym('lon'), sym('lat'), sym('alt') if alt else None)])], 'GxAnimatedUpdate', su2, ' with altitude' if alt else '')
    build('CreateRegion2d', [sym(x) for x in SIDES] + [sym('minlod'), sym('maxlod')],
          [(('latlonaltbox', x), sym(x)) for x in SIDES] + [(('lod', 'minlodpixels'), sym('minlod')), (('lod', 'maxlodpixels'), sym('maxlod'))], 'Region')
    build('CreateWait', [sym('duration')], [(('gx_duration',), sym('duration'))], 'GxWait')

    def ring(ip, st):
        st, r = element(d, ip, st, 'LinearRing', 'RING')
        return st, [r]
    build('CreateBasicPolygonPlacemark', [0], [(('geometry', 'outerboundaryis', 'linearring'), T('OBJ', 'RING'))], 'Placemark', ring)

    def view(ip, st):
        st, r = element(d, ip, st, 'Camera', 'CAM', ('set_latitude', sym('lat')), ('set_roll', sym('roll')))
        return st, [r, sym('duration')]
    build('CreateFlyTo', [0, 0], [(('gx_duration',), sym('duration')), (('abstractview', 'latitude'), sym('lat')), (('abstractview', 'roll'), sym('roll')),
          (('abstractview',), lambda ip, s, g: 'the view itself is used, not a copy' if g == T('OBJ', 'CAM') else None)], 'GxFlyTo', view)

    def pt(ip, st):
        st, p = element(d, ip, st, 'Point', 'POINT')
        o = obj(st, 'DATE', 'kmlbase::DateTime')
        return st, [p, o, S('sid')]
    # circle: the radials cover the whole circle
    for f in fns(d, 'kmlconvenience::CreateCoordinatesCircle'):
        for n in (0, 1, 3, 4, 36, 360):
            cl = BuCl()
            k = [0]

            def radial(ip, st, fr, g, this, args, node):
                a = [models.valarg(ip, st, g, i, args) for i in range(4)]
                j = len([e for e in st.trace if e[0] == 'radial'])
                st.trace = st.trace + (('radial',) + tuple(a),)
                st, o = value_object(d, ip, st, 'kmlbase::Vec3', 'V%d' % j, [T('lon', ('c', j)), T('lat', ('c', j))])
                return [(st, o)]
            cl.events = {'kmlbase::LatLngOnRadialFromPoint': radial}
            ip = EInterp(d.db, cl)
            ip.unroll = 400
            st = State()
            rs = ip.run(f, None, [sym('lat'), sym('lng'), sym('radius'), ('c', n)], st)

            def expect(q, s):
                co = value(ip, s, s.mem[('ret',)])
                ev = [e for e in s.trace if e[0] == 'radial']
                if len(ev) != n or len(tuples(ip, d, s, co) or []) != n:
                    return 'gives %d tuples instead of %d' % (len(tuples(ip, d, s, co) or []), n)
                for i, e in enumerate(ev):
                    if e[1:4] != (sym('lat'), sym('lng'), sym('radius')):
                        return 'a tuple lies on another circle'
                    a = flin(e[4])
                    if set(a) - {1}:
                        return 'a direction depends on %s' % pp(e[4])
                    if abs(float(a.get(1, 0)) - 360.0 * i / n) > 1e-6:
                        return 'tuple %d of %d lies in direction %.4g instead of %.4g' % (i + 1, n, float(a.get(1, 0)), 360.0 * i / n)
                return None
            report(chk, 'CreateCoordinatesCircle of %d' % n, f, rs, expect, ip)
    # a placemark with a time
    for f in fns(d, 'kmlconvenience::CreatePointPlacemarkWithTimeStamp'):
        cl = BuCl()
        for n in ('GetXsdTime', 'GetXsdDate', 'GetXsdDateTime'):
            cl.events['kmlbase::DateTime::' + n] = lambda ip, st, fr, g, this, args, node: [(st, T(g['n'], this))]
        ip = EInterp(d.db, cl)
        st, a = pt(ip, State())
        D = a[1]
        rs = ip.run(f, None, [refarg(ip, st, p, x) for p, x in zip(f['params'], a)], st)

        def expect(q, s):
            o = value(ip, s, s.mem[('ret',)])
            ed = ('extendeddata',)
            for p, w in ((('name',), T('GetXsdTime', D)), (('styleurl',), S('#sid')), (('timeprimitive', 'when'), T('GetXsdDateTime', D)), (('geometry',), T('OBJ', 'POINT')),
                         (ed + (('get_data_array', 0), 'name'), S('date')), (ed + (('get_data_array', 0), 'value'), T('GetXsdDate', D)),
                         (ed + (('get_data_array', 1), 'name'), S('time')), (ed + (('get_data_array', 1), 'value'), T('GetXsdTime', D))):
                g = path(ip, s, o, p)
                if g != w:
                    return '%s is %s instead of %s' % (p[-1], pp(g) if g else 'missing', pp(w))
            return None
        report(chk, 'CreatePointPlacemarkWithTimeStamp', f, rs, expect, ip)
    # atom
    A = 'kmlconvenience::AtomUtil'

    def atom(name, args, want, cls):
        f = method(d, A, name, len(args))
        ip = EInterp(d.db, BuCl())
        st = State()
        rs = ip.run(f, None, [refarg(ip, st, p, x) for p, x in zip(f['params'], args)], st)

        def expect(q, s):
            o = value(ip, s, s.mem[('ret',)])
            if o == ZERO or s.cls.get(o) != K + cls:
                return 'gives no %s' % cls
            for p, w in want:
                g = path(ip, s, o, p)
                if g != w:
                    return '%s is %s' % ('/'.join(p), pp(g) if g else 'missing')
            return None
        report(chk, 'AtomUtil::' + name, f, rs, expect, ip)
    atom('CreateBasicEntry', [T('t'), T('s')], [(('title',), T('t')), (('summary',), T('s'))], 'AtomEntry')
    atom('CreateBasicLink', [T('h'), T('r'), T('t')], [(('href',), T('h')), (('rel',), T('r')), (('type',), T('t'))], 'AtomLink')
    for nul in (0, 1):
        f = method(d, A, 'CreateEntryForFeature')
        ip = EInterp(d.db, BuCl())
        st, ft = element(d, ip, State(), 'Placemark', 'F', ('set_name', T('n')), ('set_description', T('desc')))
        rs = ip.run(f, None, [('p', ip.tmp(st, ZERO if nul else ft))], st)

        def expect(q, s):
            o = value(ip, s, s.mem[('ret',)])
            if nul:
                return None if o == ZERO else 'gives an entry for nothing'
            for p, w in ((('title',), T('n')), (('summary',), T('desc')), (('content', ('get_misplaced_elements_array', 0)), ft)):
                g = path(ip, s, o, p)
                if g != w:
                    return '%s is %s' % (p[-1], pp(g) if g else 'missing')
            # and back
            g = method(d, A, 'GetEntryFeature')
            s2, v2 = single(ip.run(g, None, [('p', ip.tmp(s, o))], s.copy()), 'GetEntryFeature')
            return None if value(ip, s2, v2) == ft else 'the feature of the entry is not the one put in'
        report(chk, 'AtomUtil::CreateEntryForFeature%s' % (' of nothing' if nul else ''), f, rs, expect, ip)
    # regionator
    for f in fns(d, 'kmlregionator::CreateLineStringBox'):
        for bx in (0, 1):
            ip = EInterp(d.db, BuCl())
            st = State()
            calls = []
            if bx:
                st, l = element(d, ip, st, 'LatLonAltBox', 'B', *[('set_' + x, sym(x)) for x in SIDES])
                calls = [('set_latlonaltbox', l)]
            st, r = element(d, ip, st, 'Region', 'R', *calls)
            rs = ip.run(f, None, [('p', ip.tmp(st, T('n'))), ('p', ip.tmp(st, r))], st)

            def expect(q, s):
                o = value(ip, s, s.mem[('ret',)])
                if path(ip, s, o, ('name',)) != T('n'):
                    return 'the name is wrong'
                g = path(ip, s, o, ('geometry',))
                if not bx:
                    return None if g in (None, ZERO) else 'a region without a box has an outline'
                co = path(ip, s, g, ('coordinates',)) if g else None
                ts = tuples(ip, d, s, co) if co else None
                if not ts:
                    return 'there is no outline'
                n, so, e, w = (sym(x) for x in SIDES)
                corners = {(w, n), (e, n), (e, so), (w, so)}
                pts = [t[:2] for t in ts]
                if len(pts) != 5 or pts[0] != pts[4] or set(pts) != corners:
                    return 'the outline is not closed over the four corners'
                for a, b in zip(pts, pts[1:]):
                    if (a[0] == b[0]) == (a[1] == b[1]):
                        return 'the outline crosses the box'
                return None
            report(chk, 'CreateLineStringBox%s' % ('' if bx else ', no box'), f, rs, expect, ip)
    # looking at bounds
    for f in fns(d, 'kmlengine::ComputeBboxLookAt'):
        ip = EInterp(d.db, BuCl())
        st, b = value_object(d, ip, State(), 'kmlengine::Bbox', 'B', [sym(x) for x in SIDES])
        rs = ip.run(f, None, [b], st)

        def expect(q, s):
            o = value(ip, s, s.mem[('ret',)])
            n, so, e, w = (sym(x) for x in SIDES)
            two = ('c', 2.0)
            for p, x in (('latitude', T('/', T('+', n, so), two)), ('longitude', T('/', T('+', e, w), two))):
                g = path(ip, s, o, (p,))
                if g is None or not feq(g, x):
                    return '%s is not that of the centre' % p
            for p in ('altitude', 'tilt', 'heading'):
                g = path(ip, s, o, (p,))
                if g not in (ZERO, ('c', 0.0)):
                    return '%s is set' % p
            return None
        b = [x for x in list(ip.unmodelled) if 'math' not in x]
        for s, v_ in rs:
            s.mem[('ret',)] = v_
            r = judge(s, expect)
            chk.bad('B1', 'ComputeBboxLookAt', where(f), r) if r else chk.ok('B1', 'ComputeBboxLookAt')

    # flying to a feature: its own view, else one over its bounds, else none
    for f in fns(d, 'kmlconvenience::CreateFlyToForFeature'):
        for kind in ('none', 'bare', 'view', 'view and place', 'place', 'place in a folder'):
            ip = EInterp(d.db, BuCl())
            ip.client.numbers = True
            st = State()
            F = ZERO
            sets = []
            if 'view' in kind:
                st, v = element(d, ip, st, 'Camera', 'CAM', ('set_latitude', sym('lat')), ('set_roll', sym('roll')))
                sets.append(('set_abstractview', v))
            if 'place' in kind:
                st, co = element(d, ip, st, 'Coordinates', 'CO')
                st.mem[('m', co, [k for k, x in ip.all_fields(K + 'Coordinates') if 'vector<kmlbase::Vec3' in ip.ty(x['t']).get('n', '')][0])] = ('vec', ())
                for g in d.db.records[K + 'Coordinates']['methods']:
                    g = d.db.functions[g]
                    if g['n'] == 'add_latlng' and len(g['params']) == 2:
                        (st, _), = ip.run(g, co, [('c', 10.0), ('c', 20.0)], st)
                st, p = element(d, ip, st, 'Point', 'P', ('set_coordinates', co))
                sets.append(('set_geometry', p))
            if kind != 'none':
                st, F = element(d, ip, st, 'Placemark', 'F', *sets)
                if 'folder' in kind:
                    st, F = element(d, ip, st, 'Folder', 'FO', ('add_feature', F))
            rs = ip.run(f, None, [('p', ip.tmp(st, F)), sym('duration')], st)

            def expect(q, s):
                o = value(ip, s, s.mem[('ret',)])
                if kind in ('none', 'bare'):
                    return None if o == ZERO else 'flies to something that has no place'
                if o == ZERO or o not in s.cls:
                    return 'does not fly there'
                if path(ip, s, o, ('gx_duration',)) != sym('duration'):
                    return 'the duration is lost'
                v = path(ip, s, o, ('abstractview',))
                if v is None or v == ZERO:
                    return 'there is no view'
                want = (('roll', sym('roll')), ('latitude', sym('lat'))) if 'view' in kind else (('latitude', ('c', 10.0)), ('longitude', ('c', 20.0)))
                for n, w in want:
                    g = path(ip, s, v, (n,))
                    if g is None or g != w and not (g[0] == w[0] == 'c' and g[1] == w[1]):
                        return 'the %s of the view is %s' % (n, pp(g) if g else 'missing')
                return None
            report(chk, 'CreateFlyToForFeature: %s' % kind, f, rs, expect, ip)


def feature_with(d, ip, st, items, ext=True):
    """a Placemark with the given Data (name or None, value)"""
    if not ext:
        return element(d, ip, st, 'Placemark', 'F')
    ds = []
    for i, (n, v) in enumerate(items):
        st, o = element(d, ip, st, 'Data', 'D%d' % i, *([('set_name', n)] if n is not None else []) + [('set_value', v)])
        ds.append(('add_data', o))
    st, e = element(d, ip, st, 'ExtendedData', 'ED', *ds)
    return element(d, ip, st, 'Placemark', 'F', ('set_extendeddata', e))


def lookups(chk, d):
    f = fns(d, 'kmlconvenience::GetExtendedDataValue')[0]
    names = (S('a'), S('b'), S('ab'), S('A'), S(''), None)
    for n in range(3):
        for nm in itertools.product(names, repeat=n):
            for ext in ((0, 1) if not n else (1,)):
                ip = EInterp(d.db, BuCl())
                st, ft = feature_with(d, ip, State(), [(x, T('v', ('c', i))) for i, x in enumerate(nm)], ext)
                o = ip.tmp(st, T('old'))
                rs = ip.run(f, None, [('p', ip.tmp(st, ft)), ('p', ip.tmp(st, S('a'))), ('p', o)], st)
                hit = [i for i, x in enumerate(nm) if x == S('a')]

                def expect(q, s):
                    r = q(mk_nz(s.mem[('ret',)]))
                    v = ip.load(s, o)
                    if hit:
                        return None if r and v == T('v', ('c', hit[0])) else 'the value of the first such Data is not found'
                    return None if not r and v == T('old') else 'a value is found although there is none'
                report(chk, 'value of a in Data named %s' % (', '.join(x[1] or '""' if x else 'nothing' for x in nm) or ('none' if ext else 'no ExtendedData')), f, rs, expect, ip)
    for fn, keep in (('AddExtendedDataValue', True), ('SetExtendedDataValue', False)):
        f = fns(d, 'kmlconvenience::' + fn)[0]
        for n, ext, nul in ((0, 0, 0), (0, 1, 0), (2, 1, 0), (0, 0, 1)):
            ip = EInterp(d.db, BuCl())
            st, ft = feature_with(d, ip, State(), [(S('x%d' % i), T('v', ('c', i))) for i in range(n)], ext)
            a = [T('n'), T('val'), ZERO if nul else ft]
            rs = ip.run(f, None, [refarg(ip, st, p, x) for p, x in zip(f['params'], a)], st)

            def expect(q, s):
                if nul:
                    return None
                ed = path(ip, s, ft, ('extendeddata',))
                k = getter(ip, s, K + 'ExtendedData', 'get_data_array_size', ed) if ed and ed != ZERO else ZERO
                got = [tuple(path(ip, s, ed, (('get_data_array', i), g)) for g in ('name', 'value')) for i in range(k[1])]
                want = ([(S('x%d' % i), T('v', ('c', i))) for i in range(n)] if keep else []) + [(T('n'), T('val'))]
                return None if got == want else 'the data is %s' % pp(tuple(got))
            report(chk, '%s, %d before%s' % (fn, n, ', no feature' if nul else ''), f, rs, expect, ip)
    # atom links and categories
    A = 'kmlconvenience::AtomUtil'

    def common(ip, links=(), cats=()):
        st = State()
        calls = []
        ls = []
        for i, (rel, typ, href) in enumerate(links):
            st, o = element(d, ip, st, 'AtomLink', 'L%d' % i, *[('set_' + n, x) for n, x in (('rel', rel), ('type', typ), ('href', href)) if x is not None])
            calls.append(('add_link', o))
            ls.append(o)
        for i, sc in enumerate(cats):
            st, o = element(d, ip, st, 'AtomCategory', 'C%d' % i, *([('set_scheme', sc)] if sc is not None else []))
            calls.append(('add_category', o))
            ls.append(o)
        st, e = element(d, ip, st, 'AtomEntry', 'E', *calls)
        return st, e, ls
    rels = (S('self'), S('http://x#self'), S('next'), None, S(''))
    for n in range(3):
        for rl in itertools.product(rels, repeat=n):
            for hrefs in itertools.product((0, 1), repeat=n):
                ip = EInterp(d.db, BuCl())
                st, e, ls = common(ip, [(r, S('t'), T('h', ('c', i)) if h else None) for i, (r, h) in enumerate(zip(rl, hrefs))])
                f = method(d, A, 'FindRelUrl')
                o = ip.tmp(st, T('old'))
                rs = ip.run(f, None, [e, ('p', ip.tmp(st, S('self'))), ('p', o)], st)
                hit = [i for i in range(n) if hrefs[i] and rl[i] is not None and rl[i][1].endswith('self')]

                def expect(q, s):
                    r, v = q(mk_nz(s.mem[('ret',)])), ip.load(s, o)
                    if hit:
                        return None if r and v == T('h', ('c', hit[0])) else 'the address of the first such link is not found'
                    return None if not r and v == T('old') else 'an address is found although there is none'
                report(chk, 'FindRelUrl among %s' % ', '.join((x[1] if x else 'no rel') + ('' if h else ' (no href)') for x, h in zip(rl, hrefs)), f, rs, expect, ip)
        for rl in itertools.product((S('self'), S('next')), (S('a/b'), S('t')), repeat=n) if n else [()]:
            ip = EInterp(d.db, BuCl())
            ps = [(rl[2 * i], rl[2 * i + 1]) for i in range(n)]
            st, e, ls = common(ip, [(r, t, S('h')) for r, t in ps])
            f = method(d, A, 'FindLink')
            rs = ip.run(f, None, [e, ('p', ip.tmp(st, S('self'))), ('p', ip.tmp(st, S('a/b')))], st)
            hit = [i for i in range(n) if ps[i] == (S('self'), S('a/b'))]
            report(chk, 'FindLink among %s' % ', '.join('%s %s' % (r[1], t[1]) for r, t in ps), f, rs, lambda q, s: None if value(ip, s, s.mem[('ret',)]) == (ls[hit[0]] if hit else ZERO) else 'finds another link', ip)
        for sc in itertools.product((S('x#kind'), S('kind'), S('other'), None), repeat=n):
            ip = EInterp(d.db, BuCl())
            st, e, ls = common(ip, (), sc)
            f = method(d, A, 'FindCategoryByScheme')
            rs = ip.run(f, None, [e, ('p', ip.tmp(st, S('#kind')))], st)
            hit = [i for i in range(n) if sc[i] == S('x#kind')]
            report(chk, 'FindCategoryByScheme among %s' % ', '.join(x[1] if x else 'none' for x in sc), f, rs, lambda q, s: None if value(ip, s, s.mem[('ret',)]) == (ls[hit[0]] if hit else ZERO) else 'finds another category', ip)
    f = method(d, A, 'GetContentSrc')
    for kind in ('src', 'no src', 'no content', 'none'):
        for out in (0, 1):
            ip = EInterp(d.db, BuCl())
            st = State()
            calls = []
            if kind in ('src', 'no src'):
                st, c = element(d, ip, st, 'AtomContent', 'C', *([('set_src', T('src'))] if kind == 'src' else []))
                calls = [('set_content', c)]
            st, e = element(d, ip, st, 'AtomEntry', 'E', *calls)
            o = ip.tmp(st, T('old'))
            rs = ip.run(f, None, [('p', ip.tmp(st, ZERO if kind == 'none' else e)), ('p', o) if out else ZERO], st)

            def expect(q, s):
                r, v = q(mk_nz(s.mem[('ret',)])), ip.load(s, o)
                if r != (kind == 'src'):
                    return 'says %s' % r
                return None if v == (T('src') if kind == 'src' and out else T('old')) else 'the address is %s' % pp(v)
            report(chk, 'GetContentSrc: %s%s' % (kind, '' if out else ', not stored'), f, rs, expect, ip)
    f = method(d, A, 'FindEntryByTitle')
    for n in range(4):
        for tl in itertools.product((S('x'), S('y')), repeat=n):
            ip = EInterp(d.db, BuCl())
            st = State()
            es = []
            for i, t in enumerate(tl):
                st, o = element(d, ip, st, 'AtomEntry', 'E%d' % i, ('set_title', t))
                es.append(o)
            st, fd = element(d, ip, st, 'AtomFeed', 'FEED', *[('add_entry', o) for o in es])
            rs = ip.run(f, None, [('p', ip.tmp(st, fd)), ('p', ip.tmp(st, S('y')))], st)
            w = es[tl.index(S('y'))] if S('y') in tl else ZERO
            report(chk, 'FindEntryByTitle among %s' % ', '.join(t[1] for t in tl), f, rs, lambda q, s: None if value(ip, s, s.mem[('ret',)]) == w else 'finds another entry', ip)
    # features of a feed
    f = method(d, A, 'GetFeedFeatures')
    for n in range(3):
        for kinds in itertools.product(('plain', 'self', 'empty'), repeat=n):
            ip = EInterp(d.db, BuCl())
            st = State()
            es, want = [], []
            for i, k in enumerate(kinds):
                calls = []
                if k != 'empty':
                    st, p = element(d, ip, st, 'Placemark', 'P%d' % i)
                    st, c = element(d, ip, st, 'AtomContent', 'C%d' % i)
                    st = single(ip.run(method(d, K + 'Element', 'AddElement', 1), c, [('p', ip.tmp(st, p))], st), 'AddElement')[0]
                    calls.append(('set_content', c))
                    want.append((p, T('h', ('c', i)) if k == 'self' else None))
                if k == 'self':
                    st, l = element(d, ip, st, 'AtomLink', 'L%d' % i, ('set_rel', S('self')), ('set_href', T('h', ('c', i))))
                    calls.append(('add_link', l))
                st, o = element(d, ip, st, 'AtomEntry', 'E%d' % i, *calls)
                es.append(o)
            st, fd = element(d, ip, st, 'AtomFeed', 'FEED', *[('add_entry', o) for o in es])
            st, fo = element(d, ip, st, 'Folder', 'FOLDER')
            rs = ip.run(f, None, [refarg(ip, st, f['params'][0], fd), refarg(ip, st, f['params'][1], fo)], st)

            def expect(q, s):
                k = getter(ip, s, K + 'Folder', 'get_feature_array_size', fo)
                got = [getter_at(ip, s, K + 'Folder', 'get_feature_array_at', fo, i) for i in range(k[1])]
                if len(got) != len(want):
                    return 'the container gets %d features instead of %d' % (len(got), len(want))
                for g, (p, h) in zip(got, want):
                    if s.cls.get(g) != K + 'Placemark':
                        return 'a feature is something else'
                    al = path(ip, s, g, ('atomlink',))
                    a = path(ip, s, al, ('href',)) if al and al != ZERO else None
                    if a != h:
                        return 'the address of a feature is %s' % (pp(a) if a else 'missing')
                return None
            report(chk, 'GetFeedFeatures: %s' % ', '.join(kinds), f, rs, expect, ip)


def collecting(chk, d):
    # simplifying coordinates
    f = fns(d, 'kmlconvenience::SimplifyCoordinates')[0]
    for n in range(4):
        for tol in ('zero', 'some'):
            cl = BuCl()
            cl.events = {'kmlbase::DistanceBetweenPoints3d': lambda ip, st, fr, g, this, args, node: [(st, T('dist', *args))]}
            ip = EInterp(d.db, cl)
            V = lambda i: (sym('lon%d' % i), sym('lat%d' % i), sym('alt%d' % i))
            st, src = element(d, ip, State(), 'Coordinates', 'SRC', *[('add_latlngalt', V(i)[1], V(i)[0], V(i)[2]) for i in range(n)])
            st, dst = element(d, ip, st, 'Coordinates', 'DST')
            tv = ('c', 0.0) if tol == 'zero' else sym('tol')
            if tol == 'some':
                st.assume(mk_lt(('c', 0.0), tv), True)
            rs = ip.run(f, None, [refarg(ip, st, f['params'][0], src), refarg(ip, st, f['params'][1], dst), tv], st)

            def expect(q, s):
                got = tuples(ip, d, s, dst)
                if got is None:
                    return 'the result is unknown'
                want = []
                for i in range(n):
                    if i and tol == 'some':
                        a, b = V(i - 1), V(i)
                        if not q(mk_lt(tv, T('dist', a[1], a[0], a[2], b[1], b[0], b[2]))):
                            continue
                    want.append(V(i))
                return None if got == want else '%d tuples are kept instead of %d' % (len(got), len(want))
            report(chk, 'simplifying %d tuples, tolerance %s' % (n, tol), f, rs, expect, ip)
    # collecting the features of a parse
    KS = 'kmlconvenience::KmlFeatureListSaver'
    cf = ctor(d, KS, 3)
    obs = d.db.records['kmldom::ParserObserver']
    hook = lambda n: method(d, KS, n) if [1 for m in d.db.records[KS]['methods'] if d.db.functions[m]['n'] == n and 'body' in d.db.functions[m]] else [d.db.functions[m] for m in obs['methods'] if d.db.functions[m]['n'] == n][0]
    new, end = hook('NewElement'), hook('EndElement')
    FLD = lambda ip: [k for k, x in ip.all_fields('kmlconvenience::FeatureList') if 'list<' in ip.ty(x['t']).get('n', '')][0]
    shapes = []
    for base in (None, 's.kml'):
        for sm in (0, 1):
            for c in ('Placemark', 'GroundOverlay', 'NetworkLink'):
                for su in (None, '#a', '#ab', '#', 'x.kml#a', 'http://h/k#id'):
                    shapes.append(([('feat', c, su)], base, sm))
            shapes += [([('other', 'Point')], base, sm), ([('other', 'Folder')], base, sm), ([('style', 'Style', 'id1', 'Document')], base, sm), ([('style', 'StyleMap', 'id1', 'Document')], base, sm),
                       ([('style', 'Style', None, 'Document')], base, sm), ([('style', 'Style', 'id1', 'Placemark')], base, sm), ([('style', 'Style', 'id1', 'Folder')], base, sm),
                       ([('update', [('feat', 'Placemark', '#ab')]), ('feat', 'Placemark', '#cd')], base, sm), ([('feat', 'Placemark', None), ('update', [('feat', 'Placemark', None), ('style', 'Style', 'id1', 'Document')])], base, sm),
                       ([('feat', 'Placemark', '#ab'), ('feat', 'PhotoOverlay', None)], base, sm)]

    def one(c, it):
        evs, base, sm = it
        ip = EInterp(d.db, BuCl())
        st = State()
        L = obj(st, 'LIST', 'kmlconvenience::FeatureList')
        st.mem[('m', L, FLD(ip))] = ('vec', ())
        M = ip.tmp(st, models.EMPTYMAP)
        o = obj(st, 'SAVER', KS)
        st.mem[('exact', o)] = ONE
        st = single(ip.run(cf, o, [L, ('p', M) if sm else ZERO, S(base) if base else ZERO], st), 'saver')[0]
        want, styles, kept = [], {}, []
        cnt = [0]
        xs = [(st, ())]

        def step(g, *els):
            out = []
            for s, rets in xs:
                for s2, v2 in ip.run(g, o, [('p', ip.tmp(s, e)) for e in els], s):
                    out.append((s2, rets + (v2,)))
            xs[:] = out

        def mkel(cls, *calls):
            cnt[0] += 1
            s, rets = single(xs, 'events')
            s, e = element(d, ip, s, cls, '%s%d' % (cls, cnt[0]), *calls)
            xs[:] = [(s, rets)]
            return e

        def go(evs, parent, upd):
            for e in evs:
                if e[0] == 'update':
                    u = mkel('Update')
                    step(new, u)
                    go(e[1], u, True)
                    step(end, parent, u)
                    continue
                calls = []
                if e[0] == 'feat' and e[2] is not None:
                    calls = [('set_styleurl', S(e[2]))]
                if e[0] == 'style' and e[2]:
                    calls = [('set_id', S(e[2]))]
                x = mkel(e[1], *calls)
                par = mkel(e[3]) if e[0] == 'style' else parent
                step(new, x)
                step(end, par, x)
                if upd:
                    kept.append((len(xs[0][1]) - 1, True))
                    continue
                if e[0] == 'feat':
                    su = e[2]
                    if base and su and su.startswith('#') and len(su) > 1:
                        su = base + su
                    want.append((x, su))
                elif e[0] == 'style' and sm and e[2] and e[3] == 'Document':
                    styles[e[2]] = x
                else:
                    kept.append((len(xs[0][1]) - 1, True))
        root = mkel('Folder')
        try:
            go(evs, root, False)
        except AnalysisBroken as ex:
            c.unk('B2', str(it)[:100], ex)
            return

        def expect(q, s):
            got = ip.load(s, ('m', L, FLD(ip)))
            if got != ('vec', tuple(x for x, _ in want)):
                return '%s features are collected instead of %d' % (len(got[1]) if got[0] == 'vec' else 'unknown', len(want))
            for x, su in want:
                g = path(ip, s, x, ('styleurl',))
                if g != S(su or ''):
                    return 'the style of a feature is %s instead of %s' % (pp(g), su)
            m = models.map_items(ip.load(s, M))
            if m is None or {k[1]: x for k, x in m} != styles:
                return 'the shared styles are not those of the document'
            rets = dict(xs)[s] if False else s.mem[('ret',)]
            for i, w in kept:
                if mk_nz(rets[i]) != ONE:
                    return 'an element that is not collected is dropped'
            return None
        values.report(c, 'B2', 'collecting %s%s%s' % (evs, ', style base' if base else '', ', style map' if sm else ''), cf, [(s, r) for s, r in xs], expect, ip)
    harness.parallel(chk, shapes, one)
    # counting elements
    EC = 'kmlconvenience::ElementCounter'
    g = method(d, EC, 'NewElement')
    types = dict((n, v) for n, v in d.db.enums['kmldom::KmlDomType']['e'])
    for seq in (('Point',), ('Point', 'Point'), ('Point', 'Folder', 'Point'), ('Style', 'Folder', 'Icon', 'Style', 'Style')):
        ip = EInterp(d.db, BuCl())
        st = State()
        M = ip.tmp(st, models.EMPTYMAP)
        o = obj(st, 'EC', EC)
        st = single(ip.run(ctor(d, EC, 1), o, [('p', M)], st), 'counter')[0]
        want = {}
        rets = []
        for i, c in enumerate(seq):
            st, e = element(d, ip, st, c, 'E%d' % i)
            ty = ('c', types['Type_' + c])
            want[ty] = want.get(ty, 0) + 1
            st, r = single(ip.run(g, o, [('p', ip.tmp(st, e))], st), 'NewElement')
            rets.append(r)

        def expect(q, s):
            m = models.map_items(ip.load(s, M))
            if m is None or {k: x for k, x in m} != {k: ('c', x) for k, x in want.items()}:
                return 'the counts are wrong'
            return None if all(mk_nz(r) == ONE for r in rets) else 'parsing is stopped'
        values.report(chk, 'B2', 'counting %s' % ', '.join(seq), g, [(st, ONE)], expect, ip)
    # links of an archive
    f = fns(d, 'kmlconvenience::KmzCheckLinks')[0]
    HR = 'kmlengine::Href'

    def links(c, it):
        ks, out = it
        cl = BuCl()
        n = len(ks)

        def rk(ip, st, fr, g, this, args, node):
            res = []
            for x, b in ip.split(st, T('readok'), fr, node):
                if b:
                    ip.store(x, ip.deref_loc(args[0]), T('kml', this), fr, node)
                res.append((x, ONE if b else ZERO))
            return res

        def gl(ip, st, fr, g, this, args, node):
            t = models.valarg(ip, st, g, 0, args)
            res = []
            for x, b in ip.split(st, T('linksok', t), fr, node):
                if b:
                    ip.store(x, ip.deref_loc(args[1]), ('vec', tuple(S('href%d' % i) for i in range(n))), fr, node)
                res.append((x, ONE if b else ZERO))
            return res

        def rf(ip, st, fr, g, this, args, node):
            p = models.valarg(ip, st, g, 0, args)
            i = p[1][4:] if p[0] == 's' and p[1].startswith('path') else None
            if i is None:
                st.trace = st.trace + (('odd', p),)
                return [(st, ONE)]
            return [(st, ONE if ks[int(i)] == 'present' else ZERO)]

        def hc(ip, st, fr, g, this, args, node):
            st.mem[('hreftext', this)] = models.valarg(ip, st, g, 0, args)
            return [(st, VOID)]
        cl.events = {'kmlengine::KmzFile::ReadKml': rk, 'kmlengine::GetLinks': gl, 'kmlengine::KmzFile::ReadFile': rf, HR + '::Href': hc,
                     HR + '::IsRelative': lambda ip, st, fr, g, this, args, node: [(st, ZERO if ks[int(st.mem[('hreftext', this)][1][4:])] == 'absolute' else ONE)],
                     HR + '::get_path': lambda ip, st, fr, g, this, args, node: [(st, ('p', ip.tmp(st, S('path' + st.mem[('hreftext', this)][1][4:]))))]}
        ip = EInterp(d.db, cl)
        st = State()
        kz = obj(st, 'KMZ', 'kmlengine::KmzFile')
        o = ip.tmp(st, ('vec', (T('old'),)))
        rs = ip.run(f, None, [kz, ('p', o) if out else ZERO], st)
        miss = [S('href%d' % i) for i, k in enumerate(ks) if k == 'missing']

        def expect(q, s):
            for e in s.trace:
                if e[0] == 'odd':
                    return 'another file is looked for'
            r = q(mk_nz(s.mem[('ret',)]))
            ok = q(T('readok')) and q(T('linksok', T('kml', kz)))
            v = ip.load(s, o)
            if not ok:
                return 'an archive that cannot be read is fine' if r else None
            if r != (not miss):
                return 'says %s although %d linked files are missing' % ('all is well' if r else 'something is missing', len(miss))
            w = ('vec', (T('old'),) + tuple(miss if out else ()))
            return None if v == w else 'the missing links are %s' % pp(v)
        values.report(c, 'B2', 'links of an archive: %s%s' % (', '.join(ks) or 'none', '' if out else ', not listed'), f, rs, expect, ip)
    harness.parallel(chk, [(ks, o) for n in range(4) for ks in itertools.product(('present', 'missing', 'absolute'), repeat=n) for o in (0, 1)], links)


def run(chk, db):
    d = Dom(db)
    d.classes()
    chk.rule('B1', 'each value given to a builder ends in its own field of the element built; a lookup gives the first element that matches, and nothing if none does')
    chk.rule('B2', 'collecting and counting visit every element once: features with their styles, shared styles, counts, missing links')
    for g in (simple, lookups, collecting):
        guard(chk, g.__name__, g, chk, d)
    return {}
