"""Bounding boxes, positions of features and geometries, regions of a quadtree."""
from eng import *
from build import *
import harness
from harness import guard
from ids import report, getter
from kmz import method

BB = 'kmlengine::Bbox'
SIDES = ('north', 'south', 'east', 'west')


def sym(n):
    return T('d', n)


def box(d, ip, st, name, tag=''):
    return value_object(d, ip, st, BB, name, [sym(x[0].upper() + tag) for x in SIDES])


def resolve(s, t, extra=()):
    if t[0] == 't' and t[1] in ('max', 'min') and len(t) == 4:
        a, b = resolve(s, t[2], extra), resolve(s, t[3], extra)
        return (bmax if t[1] == 'max' else bmin)(s, a, b, extra)
    if t[0] == 't' and t[1] in ('+', '-', '*', '/') and len(t) == 4:
        return T(t[1], resolve(s, t[2], extra), resolve(s, t[3], extra))
    return t


def sides(ip, s, o, extra=()):
    return tuple(resolve(s, getter(ip, s, BB, 'get_' + x, o), extra) for x in SIDES)


def bmax(s, a, b, extra=()):
    return b if lt(s, a, b, extra) else a


def bmin(s, a, b, extra=()):
    return b if lt(s, b, a, extra) else a


def same_sides(got, want):
    for n, g, w in zip(SIDES, got, want):
        if not feq(g, w):
            return '%s is %s instead of %s' % (n, pp(g), pp(w))
    return None


def expected_expand(s, box, lats, lons, extra=()):
    n, so, e, w = box
    for x in lats:
        n, so = bmax(s, n, x, extra), bmin(s, so, x, extra)
    for x in lons:
        e, w = bmax(s, e, x, extra), bmin(s, w, x, extra)
    return n, so, e, w


def equal_by_order(s, a, b, extra):
    """equal, or equal in value by the order facts (ties)"""
    if feq(a, b):
        return True
    return not lt(s, a, b, extra) and not lt(s, b, a, extra)


def bbox(chk, d):
    X, Y = sym('lat'), sym('lon')
    # making
    ip = EInterp(d.db, EngClient())
    st, o = box(d, ip, State(), 'B')
    f = ctor(d, BB, 4)
    report(chk, 'L1', 'Bbox(north, south, east, west)', f, [(st, ZERO)], lambda q, s: same_sides(sides(ip, s, o), [sym(x[0].upper()) for x in SIDES]))
    st, o2 = value_object(d, ip, State(), BB, 'B')
    f = ctor(d, BB, 0)

    def empty(q, s):
        n, so, e, w = sides(ip, s, o2)
        for v, lim, up in ((n, -90, 0), (so, 90, 1), (e, -180, 0), (w, 180, 1)):
            if v[0] != 'c' or (v[1] < lim if up else v[1] > lim):
                return 'a new box is not empty: a position may not expand it'
        return None
    report(chk, 'L1', 'Bbox()', f, [(st, ZERO)], empty)
    # setters
    for i, x in enumerate(SIDES):
        ip = EInterp(d.db, EngClient())
        st, o = box(d, ip, State(), 'B')
        f = method(d, BB, 'set_' + x)
        want = [sym(y[0].upper()) for y in SIDES]
        want[i] = X
        report(chk, 'L1', 'set_' + x, f, ip.run(f, o, [X], st), lambda q, s: same_sides(sides(ip, s, o), want))
    # expanding
    for name, lats, lons in (('ExpandLatitude', [X], []), ('ExpandLongitude', [], [X]), ('ExpandLatLon', [X], [Y]), ('ExpandFromBbox', None, None)):
        ip = EInterp(d.db, EngClient())
        st, o = box(d, ip, State(), 'B')
        f = method(d, BB, name)
        extra = ()
        if lats is None:
            st, o2 = box(d, ip, st, 'B2', '2')
            args, la, lo = [o2], [sym('N2'), sym('S2')], [sym('E2'), sym('W2')]
            extra = ((sym('S2'), sym('N2'), False), (sym('W2'), sym('E2'), False))
        else:
            args, la, lo = ([X, Y] if len(lats + lons) == 2 else [X]), lats, lons
        rs = ip.run(f, o, args, st)

        def expect(q, s):
            if not consistent(s, extra):
                return None
            want = expected_expand(s, [sym(x[0].upper()) for x in SIDES], la, lo, extra)
            got = sides(ip, s, o, extra)
            for n, g, w in zip(SIDES, got, want):
                if not equal_by_order(s, g, w, extra):
                    return '%s becomes %s instead of %s' % (n, pp(g), pp(w))
            return None
        report(chk, 'L1', name, f, rs, expect)
    # containing
    for name in ('Contains', 'ContainedByBox', 'ContainedByBbox'):
        ip = EInterp(d.db, EngClient())
        st, o = box(d, ip, State(), 'B')
        f = method(d, BB, name)
        N, So, E, Wt = [sym(x[0].upper()) for x in SIDES]
        if name == 'Contains':
            args = [X, Y]
            conds = [(N, X), (X, So), (E, Y), (Y, Wt)]
        else:
            N2, S2, E2, W2 = [sym(x[0].upper() + '2') for x in SIDES]
            conds = [(N2, N), (So, S2), (E2, E), (Wt, W2)]
            if name == 'ContainedByBox':
                args = [N2, S2, E2, W2]
            else:
                st, o2 = box(d, ip, st, 'B2', '2')
                args = [o2]
        rs = ip.run(f, o, args, st)

        def expect(q, s):
            if not consistent(s):
                return None
            want = not any(lt(s, a, b) for a, b in conds)
            r = q(mk_nz(s.mem[('ret',)]))
            if r != want:
                return 'says %s when the position is %s' % ('yes' if r else 'no', 'inside' if want else 'outside')
            return same_sides(sides(ip, s, o), [N, So, E, Wt])
        report(chk, 'L1', name, f, rs, expect)
    # centre
    mid = (T('/', T('+', sym('N'), sym('S')), ('c', 2)), T('/', T('+', sym('E'), sym('W')), ('c', 2)))
    for i, name in enumerate(('GetCenterLat', 'GetCenterLon')):
        ip = EInterp(d.db, EngClient())
        st, o = box(d, ip, State(), 'B')
        f = method(d, BB, name)
        report(chk, 'L1', name, f, ip.run(f, o, [], st), lambda q, s: None if feq(s.mem[('ret',)], mid[i]) else 'gives %s' % pp(s.mem[('ret',)]))
    outs2(chk, d, 'L1', 'Bbox::GetCenter', method(d, BB, 'GetCenter'), lambda ip, st: box(d, ip, st, 'B'), [], lambda q, s: mid)
    align(chk, d)


def outs2(chk, d, rule, key, f, mk, front, want, cl=None, ret=False):
    """functions with two nullable output places (latitude, longitude); want(q, s) -> the two values or None (failure, untouched)"""
    for nl in itertools.product((0, 1), repeat=2):
        ip = EInterp(d.db, cl() if cl else EngClient())
        st = State()
        st, o = mk(ip, st)
        outs = []
        for i, z in enumerate(nl):
            outs.append(ZERO if z else ('p', ip.tmp(st, T('old', ('c', i)))))
        args = list(front(ip, st, o) if callable(front) else front) + outs
        rs = ip.run(f, o if f.get('cls') and not f.get('static') else None, args, st)

        def expect(q, s):
            try:
                w = want(q, s)
            except Skip:
                return None
            if ret:
                r = q(mk_nz(s.mem[('ret',)]))
                if r != (w is not None):
                    return 'reports %s' % ('success' if r else 'failure')
            for i, a in enumerate(outs):
                if a == ZERO:
                    continue
                v = ip.load(s, a[1])
                if w is None and v != T('old', ('c', i)):
                    return 'changes its output although it fails'
                if w is not None and not feq(resolve(s, v), w[i]):
                    return '%s is %s instead of %s' % (('latitude', 'longitude')[i], pp(v), pp(w[i]))
            return None
        report(chk, rule, key + ('' if nl == (0, 0) else ' without %s' % ' and '.join(n for n, z in zip(('latitude', 'longitude'), nl) if z)), f, rs, expect)


def half(a, b):
    return T('/', T('+', a, b), ('c', 2))


class ACl(EngClient):
    def opaque(self, ip, st, fr, g, this, args, node):
        if g['n'] == 'AlignBbox':
            st.trace = st.trace + (('deeper',),)
        return super().opaque(ip, st, fr, g, this, args, node)


def align(chk, d):
    """aligning: the quadtree node shrinks to the child quadrants that contain the box, one level per step"""
    f = method(d, BB, 'AlignBbox')
    for depth in (0, 1):
        ip = EInterp(d.db, ACl())
        ip.max_states = 4096
        ip.recursion_limit = 2
        st, o = box(d, ip, State(), 'B')
        st, qt = box(d, ip, st, 'QT', 'q')
        rs = ip.run(f, o, [qt, ('c', depth)], st)
        N, So, E, Wt = [sym(x[0].upper()) for x in SIDES]

        def expect(q, s):
            got = sides(ip, s, qt)
            if any(e[0] == 'deeper' for e in s.trace):
                return 'descends further than the levels asked for'
            if same_sides(sides(ip, s, o), [N, So, E, Wt]):
                return 'changes the box'
            cur = [sym(x[0].upper() + 'q') for x in SIDES]
            for step in range(depth + 1):
                n, so, e, w = cur
                la, lo = half(n, so), half(e, w)
                kids = [(n, la, e, lo), (n, la, lo, w), (la, so, e, lo), (la, so, lo, w)]
                if not consistent(s):
                    return None
                # a quadrant the analysed code itself established to contain the box, else ask
                hit = None
                for k in kids:
                    o_ = Order(s)
                    r = [o_.lt(k[0], N), o_.lt(So, k[1]), o_.lt(k[2], E), o_.lt(Wt, k[3])]
                    if all(x is False for x in r):
                        hit = k
                        break
                if hit is None:
                    for k in kids:
                        if not (lt(s, k[0], N) or lt(s, So, k[1]) or lt(s, k[2], E) or lt(s, Wt, k[3])):
                            hit = k
                            break
                if hit is None:
                    break
                cur = hit
            return same_sides(got, cur)
        report(chk, 'L1', 'AlignBbox, %d level%s' % (depth + 1, 's' if depth else ''), f, rs, expect)
    ip = EInterp(d.db, EngClient())
    st, o = box(d, ip, State(), 'B')
    report(chk, 'L1', 'AlignBbox without a quadtree', f, ip.run(f, o, [ZERO, ('c', 3)], st), lambda q, s: None)


class BCl(EngClient):
    """expanding a box is an event"""
    def call(self, ip, st, fr, g, this, args, node):
        if g.get('cls') == BB and g['n'].startswith('Expand') and this == T('OBJ', 'BOX'):
            if g['n'] == 'ExpandLatLon':
                st.trace = st.trace + (('lat', args[0]), ('lon', args[1]))
            elif g['n'] == 'ExpandLatitude':
                st.trace = st.trace + (('lat', args[0]),)
            elif g['n'] == 'ExpandLongitude':
                st.trace = st.trace + (('lon', args[0]),)
            else:
                raise AnalysisBroken('a box is expanded by %s' % g['n'])
            return [(st, ZERO)]
        return super().call(ip, st, fr, g, this, args, node)


class Geo:
    """builds elements with symbolic positions, and says what their bounds are: list of (lat, lon) or None"""
    def __init__(self, d, ip, st):
        self.d, self.ip, self.st, self.n = d, ip, st, 0

    def new(self, cls, *calls):
        self.n += 1
        self.st, o = element(self.d, self.ip, self.st, cls, '%s%d' % (cls, self.n), *calls)
        return o

    def coords(self, n):
        pos = []
        for i in range(n):
            self.n += 1
            pos.append((sym('lat%d' % self.n), sym('lon%d' % self.n)))
        c = self.new('Coordinates', *[('add_latlngalt', a, b, sym('alt%d' % i)) if i % 2 else ('add_latlng', a, b) for i, (a, b) in enumerate(pos)])
        return c, pos

    def simple(self, cls, n):
        """n None: without coordinates"""
        if n is None:
            return self.new(cls), []
        c, pos = self.coords(n)
        return self.new(cls, ('set_coordinates', c)), pos

    def polygon(self, n, inner):
        calls = []
        pos = []
        if n != 'none':
            if n == 'noring':
                ob = self.new('OuterBoundaryIs')
            else:
                r, pos = self.simple('LinearRing', n)
                ob = self.new('OuterBoundaryIs', ('set_linearring', r))
            calls.append(('set_outerboundaryis', ob))
        for i in range(inner):
            r, _ = self.simple('LinearRing', 2)
            calls.append(('add_innerboundaryis', self.new('InnerBoundaryIs', ('set_linearring', r))))
        return self.new('Polygon', *calls), pos

    def model(self, loc):
        if not loc:
            return self.new('Model'), []
        self.n += 1
        a, b = sym('lat%d' % self.n), sym('lon%d' % self.n)
        l = self.new('Location', ('set_latitude', a), ('set_longitude', b))
        return self.new('Model', ('set_location', l)), [(a, b)]

    def multi(self, parts):
        gs = [self.geometry(p) for p in parts]
        return self.new('MultiGeometry', *[('add_geometry', g) for g, _ in gs]), [x for _, p in gs for x in p]

    def geometry(self, spec):
        k = spec[0]
        if k == 'Polygon':
            return self.polygon(spec[1], spec[2])
        if k == 'Model':
            return self.model(spec[1])
        if k == 'MultiGeometry':
            return self.multi(spec[1])
        if k == 'GxTrack':
            return self.new('GxTrack'), []
        return self.simple(k, spec[1])

    def feature(self, spec):
        k = spec[0]
        if k == 'Placemark':
            if spec[1] is None:
                return self.new('Placemark'), []
            g, p = self.geometry(spec[1])
            return self.new('Placemark', ('set_geometry', g)), p
        if k == 'PhotoOverlay':
            if spec[1] is None:
                return self.new('PhotoOverlay'), []
            g, p = self.simple('Point', spec[1])
            return self.new('PhotoOverlay', ('set_point', g)), p
        if k in ('Document', 'Folder'):
            fs = [self.feature(x) for x in spec[1]]
            return self.new(k, *[('add_feature', f) for f, _ in fs]), [x for _, p in fs for x in p]
        return self.new(k), []


GEOMS = [(c, n) for c in ('Point', 'LineString', 'LinearRing') for n in (None, 0, 1, 2, 3)]
GEOMS += [('Polygon', n, i) for n in ('none', 'noring', None, 0, 1, 3) for i in (0, 2)]
GEOMS += [('Model', 0), ('Model', 1), ('GxTrack',), ('MultiGeometry', [])]
GEOMS += [('MultiGeometry', [a, b]) for a, b in itertools.product([('Point', 1), ('Point', None), ('Polygon', 2, 1), ('Model', 1), ('GxTrack',)], repeat=2)]
GEOMS += [('MultiGeometry', [('MultiGeometry', [('Point', 1), ('LineString', 2)]), ('LinearRing', 0), ('MultiGeometry', []), ('Model', 1)])]
FEATS = [('Placemark', None)] + [('Placemark', g) for g in (('Point', 1), ('LineString', 0), ('LineString', 2), ('Polygon', 3, 1), ('MultiGeometry', [('Point', 1), ('Model', 1)]))]
FEATS += [('PhotoOverlay', n) for n in (None, 0, 1)] + [('GroundOverlay',), ('ScreenOverlay',), ('NetworkLink',)]
PART = [('Placemark', ('Point', 1)), ('Placemark', None), ('PhotoOverlay', 1), ('GroundOverlay',), ('Folder', [('Placemark', ('LineString', 2))])]
FEATS += [(c, list(p)) for c in ('Document', 'Folder') for n in (0, 1, 2) for p in itertools.product(PART, repeat=n)]
FEATS += [('Document', [('Folder', [('Folder', [('Placemark', ('Point', 1))]), ('Placemark', ('Model', 1))]), ('Placemark', None), ('Placemark', ('Point', 2))])]


def show(x):
    if isinstance(x, (tuple, list)):
        if x and isinstance(x[0], str):
            return x[0] + ('(%s)' % ', '.join(show(y) for y in x[1:]) if len(x) > 1 else '')
        return '[%s]' % ' '.join(show(y) for y in x)
    return str(x)


def bounds_of(chk, d, rule, key, f, mk, nobox=True):
    for withbox in ((1, 0) if nobox else (1,)):
        ip = EInterp(d.db, BCl())
        ip.recursion_limit = 8
        ip.max_depth = 60
        g = Geo(d, ip, State())
        o, pos = mk(g)
        st = g.st
        B = obj(st, 'BOX', BB)
        rs = ip.run(f, None, [('p', ip.tmp(st, o)), B if withbox else ZERO], st)

        def expect(q, s):
            r = q(mk_nz(s.mem[('ret',)]))
            if r != bool(pos):
                return 'reports %s' % ('bounds where there are none' if r else 'no bounds')
            las, los = set(e[1] for e in s.trace if e[0] == 'lat'), set(e[1] for e in s.trace if e[0] == 'lon')
            wa, wo = (set(p[0] for p in pos), set(p[1] for p in pos)) if withbox else (set(), set())
            for n, a, b in (('latitude', las, wa), ('longitude', los, wo)):
                if a != b:
                    x = b - a
                    return 'the box is %s by %s %s' % ('not expanded' if x else 'expanded', n, pp(sorted(x or a - b)[0]))
            return None
        report(chk, rule, key + ('' if withbox else ', no box'), f, rs, expect)


def location(chk, d):
    E_ = 'kmlengine::'
    fg, ff = d.fn1(E_ + 'GetGeometryBounds'), d.fn1(E_ + 'GetFeatureBounds')

    def work(c, it):
        k, spec = it
        if k == 'g':
            bounds_of(c, d, 'L2', 'bounds of %s' % show(spec), fg, lambda g: g.geometry(spec))
        else:
            bounds_of(c, d, 'L2', 'bounds of %s' % show(spec), ff, lambda g: g.feature(spec))
    harness.parallel(chk, [('g', x) for x in GEOMS] + [('f', x) for x in FEATS], work)
    for n in (0, 1, 2, 3):
        guard(chk, 'L2', bounds_of, chk, d, 'L2', 'bounds of %d coordinates' % n, d.fn1(E_ + 'GetCoordinatesBounds'), lambda g: g.coords(n))
    for l in (0, 1):
        guard(chk, 'L2', bounds_of, chk, d, 'L2', 'bounds of Model(%d)' % l, d.fn1(E_ + 'GetModelBounds'), lambda g: g.model(l))
    for name in ('GetGeometryBounds', 'GetCoordinatesBounds', 'GetModelBounds', 'GetFeatureBounds'):
        f = d.fn1(E_ + name)
        guard(chk, 'L2', bounds_of, chk, d, 'L2', '%s of nothing' % name, f, lambda g: (ZERO, []))

    # positions
    def posfn(name, mk, pick, key):
        f = d.fn1(E_ + name)
        keep = {}

        def make(ip, st):
            g = Geo(d, ip, st)
            o, pos = mk(g)
            keep['pos'] = pos
            for v in set(x for p in pos for x in p):
                g.st.assume(mk_lt(('c', -180.0), v), True)
                g.st.assume(mk_lt(v, ('c', 180.0)), True)
            return g.st, o
        guard(chk, 'L3', outs2, chk, d, 'L3', key, f, make, lambda ip, st, o: [('p', ip.tmp(st, o))], lambda q, s: pick(q, s, keep['pos']), None, True)
    for n in (None, 0, 1, 2):
        posfn('GetPointLatLon', lambda g: g.simple('Point', n), lambda q, s, p: p[0] if p else None, 'position of a Point of %s coordinates' % n)
    posfn('GetPointLatLon', lambda g: (ZERO, []), lambda q, s, p: None, 'position of no Point')
    for l in (0, 1):
        posfn('GetModelLatLon', lambda g: g.model(l), lambda q, s, p: p[0] if p else None, 'position of Model(%d)' % l)
    posfn('GetModelLatLon', lambda g: (ZERO, []), lambda q, s, p: None, 'position of no Model')

    def centre(q, s, p):
        """the middle of the box of the positions"""
        if not p:
            return None
        bb = [('c', -180.0), ('c', 180.0), ('c', -180.0), ('c', 180.0)]
        ex = []
        for la, lo in p:
            for v in (la, lo):
                ex += [(('c', -180), v, True), (v, ('c', 180), True)]
        if not consistent(s, ex):
            raise Skip()
        n, so, e, w = expected_expand(s, bb, [x[0] for x in p], [x[1] for x in p], ex)
        return half(n, so), half(e, w)
    for name, mk, key in (
            ('GetGeometryLatLon', lambda g: g.simple('Point', 1), 'Point'), ('GetGeometryLatLon', lambda g: g.simple('LineString', 2), 'LineString'),
            ('GetGeometryLatLon', lambda g: g.simple('LineString', 0), 'LineString without coordinates'), ('GetGeometryLatLon', lambda g: g.model(1), 'Model'),
            ('GetFeatureLatLon', lambda g: g.feature(('Placemark', ('Point', 1))), 'Placemark(Point)'), ('GetFeatureLatLon', lambda g: g.feature(('Placemark', None)), 'Placemark'),
            ('GetFeatureLatLon', lambda g: g.feature(('Folder', [('Placemark', ('Point', 1)), ('PhotoOverlay', 1)])), 'Folder'),
            ('GetPlacemarkLatLon', lambda g: g.feature(('Placemark', ('LineString', 2))), 'Placemark(LineString)'), ('GetPlacemarkLatLon', lambda g: g.feature(('Placemark', None)), 'Placemark')):
        def pick(q, s, p):
            return centre(q, s, p)
        posfn(name, mk, pick, '%s of %s' % (name, key))

    # centre of a box element
    for c in ('LatLonBox', 'LatLonAltBox'):
        f = d.fn1(E_ + 'GetCenter')

        def make(ip, st):
            g = Geo(d, ip, st)
            o = g.new(c, *[('set_' + x, sym(x[0].upper())) for x in SIDES])
            return g.st, o
        guard(chk, 'L3', outs2, chk, d, 'L3', 'GetCenter of %s' % c, f, make, lambda ip, st, o: [('p', ip.tmp(st, o))],
              lambda q, s: (half(sym('N'), sym('S')), half(sym('E'), sym('W'))))
    guard(chk, 'L3', outs2, chk, d, 'L3', 'GetCenter of nothing', d.fn1(E_ + 'GetCenter'), lambda ip, st: (st, ZERO), lambda ip, st, o: [('p', ip.tmp(st, ZERO))], lambda q, s: None)


class Skip(Exception):
    pass


def run(chk, db):
    d = Dom(db)
    d.classes()
    chk.rule('L1', 'a box expands to exactly cover what is added, contains exactly the positions between its sides, and aligns to the quadrants that contain it')
    chk.rule('L2', 'the bounds of a geometry or feature are expanded by exactly its positions; there are bounds exactly when there is a position')
    chk.rule('L3', 'the position of a geometry or feature is the middle of its bounds; outputs that are not asked for or not available are left alone')
    guard(chk, 'L1', bbox, chk, d)
    guard(chk, 'L2', location, chk, d)
    return {'analysed': 'Bbox and the bounds and position functions', 'box_operations': 14, 'geometry_trees': len(GEOMS), 'feature_trees': len(FEATS)}
