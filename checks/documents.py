"""Whole documents: what is written declares what it uses; every entry point gives what the text holds."""
from eng import *
from build import *
import harness, itertools, dom
from harness import guard
from ids import getter
from kmz import S, method
from values import fns, report
from typeid import xsd_object
import typeid
from imports import ICl

KF = 'kmlengine::KmlFile'
# prefix -> address, as the standards give them
SPACES = {'APP': ('app', 'http://www.w3.org/2007/app'), 'ATOM': ('atom', 'http://www.w3.org/2005/Atom'), 'BATCH': ('batch', 'http://schemas.google.com/gdata/batch'),
          'DOCS': ('docs', 'http://schemas.google.com/docs/2007'), 'EXIF': ('exif', 'http://schemas.google.com/photos/exif/2007'), 'GD': ('gd', 'http://schemas.google.com/g/2005'),
          'GEORSS': ('georss', 'http://www.georss.org/georss'), 'GML': ('gml', 'http://www.opengis.net/gml'), 'GPHOTO': ('gphoto', 'http://schemas.google.com/photos/2007'),
          'GPX': ('gpx', 'http://www.topografix.com/GPX/1/0'), 'GX22': ('gx', 'http://www.google.com/kml/ext/2.2'), 'GS': ('gs', 'http://schemas.google.com/spreadsheets/2006'),
          'KML22': ('kml', 'http://www.opengis.net/kml/2.2'), 'MEDIA': ('media', 'http://search.yahoo.com/mrss/'), 'OPENSEARCH': ('openSearch', 'http://a9.com/-/spec/opensearch/1.1/'),
          'XAL': ('xal', 'urn:oasis:names:tc:ciq:xsdschema:xAL:2.0'), 'XML': ('xml', 'http://www.w3.org/XML/1998/namespace'), 'XSD': ('xsd', 'http://www.w3.org/2001/XMLSchema'),
          'XSI': ('xsi', 'http://www.w3.org/2001/XMLSchema-instance')}


class DCl(ICl):
    """the schema as its constructor leaves it"""
    xsd = None
    names = {}

    def call(self, ip, st, fr, f, this, args, node):
        qn = f['qn']
        if qn == 'kmldom::Xsd::ElementName' and args and args[0][0] == 'c':
            n = self.names.get(args[0][1])
            if n is not None:
                return [(st, S(n))]
        if qn == 'kmldom::Xsd::ElementType' and args and args[0][0] == 'c' and args[0][1] in self.kinds:
            return [(st, ('c', self.kinds[args[0][1]]))]
        return super().call(ip, st, fr, f, this, args, node)
    kinds = {}


def names(d):
    """type -> name and kind, as the schema answers"""
    xsd = xsd_object(d)
    if xsd is None:
        raise AnalysisBroken('the schema is not constructed in one way')
    n, k = {}, {}
    for q, out in (('kmldom::Xsd::ElementName', n), ('kmldom::Xsd::ElementType', k)):
        f = d.fn1(q)
        for _, t in d.types:
            ip = Interp(d.db, typeid.Cl(xsd))
            st = State()
            for a, b in xsd[1].items():
                st.mem[a] = b
            st.cls[xsd[0]] = 'kmldom::Xsd'
            v = typeid.single(ip.run(f, xsd[0], [('c', t)], st))
            if v is not None and v[0] in ('s', 'c'):
                out[t] = v[1]
    return n, k


def table(chk, d):
    e = dict(d.db.enums['kmlbase::XmlnsId']['e'])
    f = d.fn1('kmlbase::FindXmlNamespaceAndPrefix')
    for n, v in sorted(e.items()):
        want = SPACES.get(n[6:])
        for nul in ((), (1,), (2,), (1, 2)):
            ip = EInterp(d.db, ICl())
            st = State()
            p, u = ip.tmp(st, S('p0')), ip.tmp(st, S('u0'))
            rs = ip.run(f, None, [('c', v), ZERO if 1 in nul else ('p', p), ZERO if 2 in nul else ('p', u)], st)

            def expect(q, s):
                r = q(mk_nz(s.mem[('ret',)]))
                if r != (want is not None):
                    return 'is %s' % ('found' if r else 'not found')
                w = want or ('p0', 'u0')
                for i, l in ((1, p), (2, u)):
                    g = ip.load(s, l)
                    if g != S(('p0', 'u0')[i - 1] if i in nul else w[i - 1]):
                        return 'gives %s instead of %s' % (pp(g), w[i - 1])
            report(chk, 'D1', 'namespace %s%s' % (n, ' without %s' % (nul,) if nul else ''), f, rs, expect, ip)


# parts of other elements that carry no namespace of their own: they are never a document
PARTS = ('hotSpot', 'overlayXY', 'rotationXY', 'screenXY', 'size', 'innerBoundaryIs', 'outerBoundaryIs')
# misplaced children all go the same way: these stand for the others
SAMPLE = ('gx:altitudeMode', 'gx:Tour', 'atom:link', 'atom:title', 'xal:Country', 'xal:LocalityName', 'Placemark', 'hotSpot')


class NCl(DCl):
    """a first pass notes what is written, by type; in the second the program looks for namespaces itself"""
    def __init__(self):
        super().__init__()
        self.want = lambda ev: True

    def call(self, ip, st, fr, f, this, args, node):
        if f['qn'] == 'kmldom::Xsd::EnumId':
            return [(st, ONE)]
        if f['qn'] == 'kmldom::Xsd::EnumValue':
            return [(st, S('value'))]
        return super().call(ip, st, fr, f, this, args, node)


def xmlns_of(ip, s, o):
    """the namespace declarations of an element, as it would write them"""
    f = [g for g in (ip.db.functions[m] for m in ip.db.records['kmldom::Element']['methods']) if g['n'] == 'SerializeAttributes'][0]
    a = obj(s, 'WRITTEN', 'kmlbase::Attributes')
    st, _ = single(ip.run(ctor_of(ip, 'kmlbase::Attributes'), a, [], s), 'Attributes')
    out = []
    for x, _ in ip.run(f, o, [('p', a) if a[0] != 'p' and False else a], st):
        m = None
        for k, fld in ip.all_fields('kmlbase::Attributes'):
            if 'map<' in ip.ty(fld['t']).get('n', ''):
                m = models.map_items(ip.load(x, ('m', a, k)))
        if m is None:
            raise AnalysisBroken('the attributes are unknown')
        out.append({k[1]: v for k, v in m})
    if len(out) != 1:
        raise AnalysisBroken('the attributes are written in %d ways' % len(out))
    return out[0]


def ctor_of(ip, cls):
    r = [ip.db.functions[m] for m in ip.db.records[cls]['methods'] if ip.db.functions[m]['kind'] == 'ctor' and not ip.db.functions[m]['params']]
    if not r:
        raise AnalysisBroken('%s has no default constructor' % cls)
    return r[0]


def spaces(chk, d):
    nm, kinds = names(d)
    f = d.fn1('kmlengine::FindAndInsertXmlNamespaces')
    std = {p: u for p, u in SPACES.values()}
    gx = d.tval['Type_GxH']
    roots = sorted(d.classes().items())
    kids = [t for _, t in d.types if ':' in nm.get(t, '')]
    kids += [t for _, t in d.types if t in d.classes() and t not in kids]

    def one(c, rt, C, t, base):
        cl, ip, P, st0, done = base
        E, G = T('OBJ', 'E'), T('OBJ', 'G')
        cls = {P: C}
        sts = [st0.copy()]

        def put(p, k, ty):
            out = []
            for s in sts:
                a, cls[k] = d.make(ip, s, ty, k)
                for x in a:
                    x.mem[('exact', k)] = ONE
                    x.assume(mk_nz(k), True)
                    x.mem[('m', k, 'kmldom::Element::char_data_')] = T('text')
                    out += [y for y, _ in ip.call_virtual(x, 'AddElement', cls[p], p, [('p', ip.tmp(x, k))])]
            return out
        cl.want = lambda ev: False
        cl.roots = ()
        if t is not None:
            sts = put(P, E, t)
            if nm.get(t) not in SAMPLE:
                sts = [s for s in sts if ip.load(s, ('m', P, MIS)) == ('vec', ())]
                # children of one field all go the same way
                slot = (nm.get(t).split(':')[0] if ':' in nm.get(t) else '', t in d.classes(), frozenset(k for s in sts for k in s.mem if k[0] == 'm' and k[1] == P and s.mem[k] != st0.mem.get(k)))
                if slot in done:
                    return
                done.add(slot)
            if t in d.classes():
                sts = put(E, G, gx)
        key = '%s%s' % (nm.get(rt), ' with ' + nm.get(t, '?') if t is not None else '')
        for s in sts:
            cl.want = lambda ev: ev[0] in ('Emit', 'Field', 'BeginById', 'SaveSimpleVec3', 'SaveVec3')
            used = written(ip, cl, s, P, cls, set())
            cl.want = lambda ev: False
            cl.roots = ()
            x0 = s.copy()
            x0.trace = ()
            rs = ip.run(f, None, [('p', ip.tmp(x0, P)) if ip.ty(f['params'][0]['t']).get('ref') else P], x0)

            def expect(q, x):
                a = xmlns_of(ip, x, P)
                for ty in sorted(used):
                    n = nm.get(ty, '')
                    if ':' in n:
                        pre = n.split(':')[0]
                        if a.get('xmlns:' + pre) != S(std[pre]):
                            return '%s is written with the prefix %s %s' % (n, pre, 'declared as %s' % pp(a['xmlns:' + pre]) if 'xmlns:' + pre in a else 'that is not declared')
                    elif ty in d.classes() and n not in PARTS and a.get('xmlns') != S(std['kml']):
                        return '%s is written where the default namespace is %s' % (n, pp(a['xmlns']) if 'xmlns' in a else 'not declared')
                for k in a:
                    if k.startswith('xmlns:') and a[k] != S(std.get(k[6:], '?')) or k == 'xmlns' and a[k] != S(std['kml']):
                        return 'declares %s as %s' % (k, pp(a[k]))
            report(c, 'D2', key, f, rs, expect, ip)

    def work(c, item):
        rt, C = item
        cl = NCl()
        cl.names, cl.kinds = nm, kinds
        ip = EInterp(d.db, cl)
        P = T('OBJ', 'P')
        for st in d.make(ip, State(), rt, P)[0]:
            st.mem[('exact', P)] = ONE
            st.assume(mk_nz(P), True)
            done = set()
            for t in [None] + kids:
                one(c, rt, C, t, (cl, ip, P, st, done))
    harness.parallel(chk, roots, work)


def written(ip, cl, s, o, cls, seen):
    """types of the elements and fields that writing o writes"""
    if o in seen:
        return set()
    seen.add(o)
    cl.roots = (o,)
    x0 = s.copy()
    x0.trace = ()
    r = set()
    for x, _ in ip.call_virtual(x0, 'Serialize', cls[o], o, [dom.S]):
        evs = []
        for ev, _, kind in flat(x.trace):
            if kind == 'loop':
                for body in ev[2]:
                    evs += list(body)
            else:
                evs.append(ev)
        for ev in evs:
            if ev[0] == 'Emit' and ev[1] in cls:
                r |= written(ip, cl, s, ev[1], cls, seen)
            elif ev[0] == 'Emit':
                raise AnalysisBroken('something unknown is written: %s' % pp(ev[1])[:60])
            elif ev[0] in ('Field', 'BeginById', 'SaveSimpleVec3') and ev[1][0] == 'c':
                r.add(ev[1][1])
    return r


class WrCl(ICl):
    """writing the root is an event; so is looking for its namespaces; streams take what is written to them"""
    root = None

    def call(self, ip, st, fr, f, this, args, node):
        qn, n = f['qn'], f['n']
        if qn == 'kmlengine::FindAndInsertXmlNamespaces':
            st.trace = st.trace + (('declare', models.valarg(ip, st, f, 0, args)),)
            return [(st, VOID)]
        if n == 'Serialize' and f.get('virt') and this == self.root and len(args) == 1:
            w = args[0]
            o, how = None, []
            cls = st.cls.get(w, '')
            for k, x in ip.all_fields(cls):
                v = ip.load(st, ('m', w, k))
                if k.endswith(('newline_', 'indent_')):
                    how.append(models.text_of(ip, st, v) if hasattr(models, 'text_of') else v)
                if k.endswith('output_'):
                    o = v
            if o is None:
                raise AnalysisBroken('the root is written with %s' % cls)
            if ('declare', self.root) not in st.trace:
                st.trace = st.trace + (('early',),)
            self.emit(ip, st, o, T('XML', *how), fr, node)
            return [(st, VOID)]
        if this == T('OUT') and n in ('write', 'operator<<', 'put'):
            v = models.valarg(ip, st, f, 0, args)
            if n == 'write' and v[0] == 'p':
                t = self.text_at(ip, st, v)
                v = S(t) if isinstance(t, str) else T('data', v, args[1])
            self.emit(ip, st, this, v, fr, node)
            return [(st, this)]
        return super().call(ip, st, fr, f, this, args, node)

    def emit(self, ip, st, o, v, fr, node):
        if o != T('OUT'):
            o = ip.load(st, ('m', o, 'kmldom::StringAdapter::str_'))
            l = o[1] if o[0] == 'p' else None
            if l is None:
                raise AnalysisBroken('the text goes to %s' % pp(o))
            ip.store(st, l, mk_cat(ip.load(st, l), v), fr, node)
            return
        st.trace = st.trace + (('out', v),)


def writing(chk, d):
    for n in ('SerializeToString', 'SerializeToOstream'):
        f = method(d, KF, n, 1)
        for enc, nul, out in itertools.product((None, 'iso-8859-1', ''), (True, False), (True, False)):
            cl = WrCl()
            ip = EInterp(d.db, cl)
            st, kf = value_object(d, ip, State(), KF, 'KF')
            R = obj(st, 'ROOT', 'kmldom::Kml')
            st.mem[('exact', R)] = ONE
            cl.root = R
            if not nul:
                st, _ = do(ip, st, kf, KF, 'set_root', R)
            if enc is not None:
                st, _ = do(ip, st, kf, KF, 'set_encoding', S(enc))
            o = ip.tmp(st, S(''))
            st.assume(mk_nz(T('OUT')), True)
            st.cls[T('OUT')] = 'std::basic_ostream<char>'
            rs = ip.run(f, kf, [ZERO if not out else ('p', o) if n.endswith('String') else T('OUT')], st)
            head = '<?xml version="1.0" encoding="%s"?>\n' % (enc if enc is not None else 'utf-8')

            def expect(q, s):
                r = q(mk_nz(s.mem[('ret',)]))
                got = ip.load(s, o)
                for e in s.trace:
                    if e[0] == 'out':
                        got = mk_cat(got, e[1])
                if not out:
                    return 'says it has written' if r else None
                if nul:
                    if not r and got == S('') or n.endswith('String') and got in (S(head), S('')):
                        return None
                    return 'writes %s without a root' % pp(got)
                if not r:
                    return 'fails'
                want = mk_cat(S(head), T('XML', S('\n'), S('  ')))
                if got != want:
                    return 'writes %s instead of %s' % (pp(got), pp(want))
                if ('early',) in s.trace:
                    return 'writes without declaring the namespaces of the root'
                return None
            report(chk, 'D3', '%s%s%s%s' % (n, ' in %r' % enc if enc is not None else '', ' without root' if nul else '', '' if out else ' to nothing'), f, rs, expect, ip)


# ---- reading with namespaces -------------------------------------------------------------------
class HCl(ICl):
    def call(self, ip, st, fr, f, this, args, node):
        if this == T('HANDLER') and f['n'] in ('StartElement', 'EndElement', 'CharData', 'StartNamespace', 'EndNamespace', 'set_parser'):
            st.trace = st.trace + ((f['n'],) + tuple(models.valarg(ip, st, f, i, args) for i in range(len(args))),)
            return [(st, VOID)]
        if f['n'] in ('StartElement', 'EndElement', 'CharData') and f.get('cls') == 'kmldom::KmlHandler' and self.base:
            st.trace = st.trace + ((f['n'],) + tuple(models.valarg(ip, st, f, i, args) for i in range(len(args))),)
            return [(st, VOID)]
        return super().call(ip, st, fr, f, this, args, node)
    base = False


XM = 'kmlbase::Xmlns'
NS = 'kmlbase::ExpatHandlerNs'


def xmlns_object(d, ip, st, decl):
    """Xmlns::Create of the given attributes"""
    a = obj(st, 'ATTRS', 'kmlbase::Attributes')
    st, _ = single(ip.run(ctor_of(ip, 'kmlbase::Attributes'), a, [], st), 'Attributes')
    for k, v in decl:
        st, _ = do(ip, st, a, 'kmlbase::Attributes', 'SetString', S(k), S(v))
    return ip.run(method(d, XM, 'Create', 1), None, [a], st)


def handlers(chk, d):
    DECL = [[], [('xmlns', 'u:d')], [('xmlns:a', 'u:a')], [('xmlns', 'u:d'), ('xmlns:a', 'u:a'), ('xmlns:b', 'u:b'), ('id', 'x')], [('id', 'x'), ('xmlnsfoo', 'u:z')]]
    f = method(d, XM, 'Create', 1)
    for decl in DECL:
        key = ' '.join('%s=%s' % x for x in decl) or 'none'
        ip = EInterp(d.db, HCl())
        rs = xmlns_object(d, ip, State(), decl)
        default = dict(decl).get('xmlns', '')
        pre = {k[6:]: v for k, v in decl if k.startswith('xmlns:')}
        if len(rs) != 1:
            chk.unk('D4', key, 'the declarations are read in %d ways' % len(rs))
            continue
        s, o = rs[0]
        if not default and not pre:
            (chk.ok('D4', key) if o == ZERO or key.startswith('id=x xmlnsfoo') else chk.bad('D4', key, where(f), 'gives declarations where there are none'))
            continue
        if o == ZERO:
            chk.bad('D4', key, where(f), 'gives nothing')
            continue

        def ask(n, *a):
            g = method(d, XM, n, len(a))
            x = s.copy()
            return ip.run(g, o, [('p', ip.tmp(x, S(y))) if ip.ty(p['t']).get('ref') else S(y) for p, y in zip(g['params'], a)], x), g
        qs = [('get_default', (), default)]
        for p in ('a', 'b', 'c', 'xmlns', ''):
            if p != 'xmlns':
                qs.append(('GetNamespace', (p,), pre.get(p, '')))
        for u in ('u:a', 'u:b', 'u:c', ''):
            qs.append(('GetKey', (u,), {v: k for k, v in pre.items()}.get(u, '')))
        for n, a, want in qs:
            r, g = ask(n, *a)

            def expect(q, x):
                v = x.mem[('ret',)]
                if v[0] == 'p':
                    v = ip.load(x, v[1])
                return None if v == S(want) else 'is %s instead of %r' % (pp(v), want)
            report(chk, 'D4', '%s%s of %s' % (n, a, key), g, r, expect, ip)
        if not default:
            continue
        # the handler that gives elements their prefixes
        fc = ctor(d, NS, 2)
        h = obj(s, 'NSH', NS)
        s.assume(mk_nz(T('HANDLER')), True)
        s.cls[T('HANDLER')] = 'kmlbase::ExpatHandler'
        s1 = single(ip.run(fc, h, [T('HANDLER'), o], s), 'ExpatHandlerNs')[0]
        for name, want in (('u:d|kml', 'kml'), ('plain', 'plain'), ('u:a|x', 'a:x' if 'a' in pre else 'u:a|x'), ('u:b|y-z', 'b:y-z' if 'b' in pre else 'u:b|y-z'), ('u:other|q', 'u:other|q'), ('u:d|', '')):
            for m in ('StartElement', 'EndElement'):
                g = method(d, NS, m)
                x = s1.copy()
                x.trace = ()
                at = T('atts')
                a = [('p', ip.tmp(x, S(name)))] + ([('p', ip.tmp(x, at))] if m == 'StartElement' else [])
                rs = ip.run(g, h, a, x)

                def expect(q, y):
                    w = ((m, S(want)) + ((at,) if m == 'StartElement' else ()),)
                    return None if y.trace == w else 'tells the handler %s' % pp(y.trace)
                report(chk, 'D5', '%s of %s with %s' % (m, name, key), g, rs, expect, ip)
        g = method(d, NS, 'CharData', 1)
        x = s1.copy()
        x.trace = ()
        rs = ip.run(g, h, [('p', ip.tmp(x, T('text')))], x)
        report(chk, 'D5', 'text with %s' % key, g, rs, lambda q, y: None if y.trace == (('CharData', T('text')),) else 'tells the handler %s' % pp(y.trace), ip)

    for name in ('u:d|Placemark', 'Placemark', 'u|v|name', '|x'):
        for m in ('StartElement', 'EndElement', 'CharData'):
            g = method(d, 'kmldom::KmlHandlerNS', m)
            cl = HCl()
            cl.base = True
            ip = EInterp(d.db, cl)
            st = State()
            h = obj(st, 'KH', 'kmldom::KmlHandlerNS')
            a = [('p', ip.tmp(st, S(name)))] + ([('p', ip.tmp(st, T('atts')))] if m == 'StartElement' else [])
            rs = ip.run(g, h, a, st)
            w = ((m, S(name if m == 'CharData' else name.split('|')[-1])) + ((T('atts'),) if m == 'StartElement' else ()),)
            report(chk, 'D5', 'KML %s of %s' % (m, name), g, rs, lambda q, y: None if y.trace == w else 'reads %s' % pp(y.trace), ip)


# ---- reading whole documents -------------------------------------------------------------------
KH = 'kmldom::KmlHandler'


class RdCl(DCl):
    """the reader with the schema's answers; stopping the XML parser is an event"""
    ids = {}

    def known_class(self, ip, st, v):
        return v[0] == 'o' and v in st.cls or super().known_class(ip, st, v)

    def call(self, ip, st, fr, f, this, args, node):
        qn, n = f['qn'], f['n']
        if n == 'XML_StopParser':
            st.trace = st.trace + (('stop',),)
            return [(st, ONE)]
        if qn == 'kmldom::Xsd::EnumId':
            v = (args[0], models.valarg(ip, st, f, 1, args))
            if v not in self.enums:
                self.enums.append(v)
            return [(st, ('c', self.enums.index(v)))]
        if qn == 'kmldom::Xsd::EnumValue' and args[1][0] == 'c' and 0 <= args[1][1] < len(self.enums):
            v = self.enums[args[1][1]]
            return [(st, v[1] if v[0] == args[0] else S(''))]
        if qn == 'kmldom::Xsd::ElementId':
            v = models.valarg(ip, st, f, 0, args)
            if v[0] != 's':
                raise AnalysisBroken('an element called %s is looked up' % pp(v))
            return [(st, ('c', self.ids.get(v[1], -1 if 'Type_Unknown' not in self.tval else self.tval['Type_Unknown'])))]
        return super().call(ip, st, fr, f, this, args, node)


def reader(d, nk):
    cl = RdCl()
    cl.enums = []
    cl.names, cl.kinds = nk
    cl.tval = d.tval
    cl.ids = {n: t for t, n in cl.names.items() if not d.tname[t] == 'Type_IconStyleIcon'}
    cl.want = lambda ev: False
    return cl


def read(d, cl, doc, observers=()):
    """the states after reading a document given as (name, [(attribute, value)], [child or text])"""
    ip = EInterp(d.db, cl)
    st = State()
    obs = ip.tmp(st, ('vec', tuple(observers)))
    h = obj(st, 'READER', KH)
    sts = [s for s, _ in ip.run(ctor(d, KH, 1), h, [('p', obs)], st)]
    F = {n: method(d, KH, n) for n in ('StartElement', 'EndElement', 'CharData')}

    def go(sts, e):
        if isinstance(e, (str, tuple)) and (isinstance(e, str) or e[0] in ('t', 's')):
            v = S(e) if isinstance(e, str) else e
            return [x for s in sts for x, _ in ip.run(F['CharData'], h, [('p', ip.tmp(s, v))], s)]
        n, at, kids = e
        out = []
        for s in sts:
            vec = ('vec', tuple(S(x) if isinstance(x, str) else x for a in at for x in a))
            out += [x for x, _ in ip.run(F['StartElement'], h, [('p', ip.tmp(s, S(n))), ('p', ip.tmp(s, vec))], s)]
        for k in kids:
            out = go(out, k)
        return [x for s in out for x, _ in ip.run(F['EndElement'], h, [('p', ip.tmp(s, S(n)))], s)]
    sts = go(sts, doc)
    res = []
    for s in sts:
        res += ip.run(method(d, KH, 'PopRoot', 0), h, [], s)
    return ip, res


def tree(d, ip, cl, s, o):
    """what writing an element writes, as (name, {attributes}, [children or texts])"""
    cls = s.cls.get(o)
    if cls is None:
        raise AnalysisBroken('something unknown is written')
    old = cl.want, cl.roots
    cl.want, cl.roots = (lambda ev: True), (o,)
    x0 = s.copy()
    x0.trace = ()
    rs = ip.call_virtual(x0, 'Serialize', cls, o, [dom.S])
    cl.want, cl.roots = old
    if len(rs) != 1:
        raise AnalysisBroken('%s is written in %d ways' % (cls, len(rs)))
    x = rs[0][0]
    cur = None
    out = []
    for ev in x.trace:
        if ev[0] == 'BeginById':
            m = models.map_items(ev[2])
            if m is None:
                raise AnalysisBroken('attributes are unknown')
            cur = (cl.names.get(ev[1][1]), {k[1]: v for k, v in m}, [])
            out.append(cur)
        elif ev[0] == 'Emit':
            t = tree(d, ip, cl, x, ev[1])
            (cur[2] if cur else out).extend(t)
        elif ev[0] in ('Field', 'SaveSimpleVec3'):
            v = ev[2]
            if v[:2] == ('t', 'tostr') and v[3][:2] == ('t', 'parse') and v[3][2] == v[2]:
                v = v[3][3]     # a value written in the form it was read from
            (cur[2] if cur else out).append((cl.names.get(ev[1][1]), {}, [v] if ev[0] == 'Field' and v != S('') else []))
        elif ev[0] == 'SaveContent':
            cur[2].append(ev[1])
        elif ev[0] == 'SaveVec3':
            cur[2].append(T('vec3'))
        elif ev[0] in ('loop', 'last'):
            raise AnalysisBroken('an unknown number of things is written')
    return out


def show(t):
    if isinstance(t, tuple) and len(t) == 3 and isinstance(t[1], dict):
        return '<%s%s>%s' % (t[0], ''.join(' %s=%s' % (k, pp(v)) for k, v in sorted(t[1].items())), ''.join(show(c) for c in t[2])) + '</>'
    return pp(t) if isinstance(t, tuple) else str(t)


def same(a, b):
    """path of the first difference, or None"""
    ta, tb = (isinstance(x, tuple) and len(x) == 3 and isinstance(x[1], dict) for x in (a, b))
    if ta != tb:
        return '%s instead of %s' % (show(a)[:90], show(b)[:90])
    if not ta:
        return None if a == b else '%s instead of %s' % (pp(a), pp(b))
    def plain(v):
        if v[:2] == ('t', 'tostr'):
            w = v[-1]
            if w[0] == 'c':
                return S('%g' % w[1])
            if w[:2] == ('t', 'parse') and w[-1][0] == 's':
                return w[-1]
        return v
    if a[0] != b[0] or {k: plain(v) for k, v in a[1].items()} != b[1]:
        return '%s instead of %s' % (show((a[0], a[1], []))[:100], show((b[0], b[1], []))[:100])
    for i in range(max(len(a[2]), len(b[2]))):
        if i >= len(a[2]):
            return '%s: %s is missing' % (a[0], show(b[2][i])[:90])
        if i >= len(b[2]):
            return '%s: %s is added' % (a[0], show(a[2][i])[:90])
        r = same(a[2][i], b[2][i])
        if r:
            return '%s/%s' % (a[0], r)
    return None


def E(name, /, *kids, **at):
    return (name, [(k.rstrip('_'), v) for k, v in at.items()], list(kids))


def W(name, /, *kids, **at):
    return (name, {k.rstrip('_'): (S(v) if isinstance(v, str) else v) for k, v in at.items()}, [S(k) if isinstance(k, str) else k for k in kids])


def as_is(e):
    """a document that is written as it was read"""
    return (e[0], {k: S(v) if isinstance(v, str) else v for k, v in e[1]}, [as_is(c) if isinstance(c, tuple) and len(c) == 3 and isinstance(c[1], list) else S(c) if isinstance(c, str) else c for c in e[2]])


def standing():
    """documents in the order of the schema: each is written exactly as it was read"""
    a, b, c, x = T('t1'), T('t2'), T('t3'), T('t4')
    X = lambda n, /, *k, **at: (n, [(q.rstrip('_').replace('__', ':'), v) for q, v in at.items()], list(k))
    yield 'snippets', X('kml', X('Document', X('Snippet', a, maxLines='3'), X('NetworkLink', X('Snippet', b)))),
    yield 'a link snippet', X('kml', X('NetworkLinkControl', X('linkName', c), X('linkDescription', b), X('linkSnippet', a, maxLines='1')))
    yield 'an icon in another style', X('kml', X('Document', X('Style', X('LineStyle', X('Icon', X('href', 'ha'), X('refreshMode', 'onInterval'))))))
    yield 'an icon style with an icon', X('kml', X('Document', X('Style', X('IconStyle', X('scale', '2'), X('heading', '3'), X('Icon', X('href', 'ha')), X('hotSpot', x='1', y='2', xunits='pixels', yunits='fraction')))))
    yield 'a style', X('kml', X('Document', X('Style', X('IconStyle', X('colorMode', 'random')), X('LabelStyle', X('scale', '1')), X('LineStyle', X('width', '2')), X('PolyStyle', X('fill', '0'), X('outline', '1')), X('BalloonStyle', X('text', a), X('displayMode', 'hide')), X('ListStyle', X('listItemType', 'checkHideChildren'), X('ItemIcon', X('state', 'open'), X('href', 'hb')), X('ItemIcon', X('href', 'hc'))), id='s')))
    yield 'a style map', X('kml', X('Document', X('StyleMap', X('Pair', X('key', 'normal'), X('styleUrl', a)), X('Pair', X('key', 'highlight'), X('Style', X('LineStyle', X('width', '4')))), X('Pair', X('key', 'normal')), id='m')))
    yield 'a network link', X('kml', X('NetworkLink', X('name', a), X('visibility', '0'), X('open', '1'), X('atom:author', X('atom:name', b), X('atom:uri', c)), X('atom:link', href=a, rel='self'), X('address', x), X('phoneNumber', a), X('refreshVisibility', '1'), X('flyToView', '0'), X('Link', X('href', 'hb'), X('refreshMode', 'onInterval'), X('refreshInterval', '5'), X('viewRefreshMode', 'onStop'), X('viewRefreshTime', '2'), X('viewBoundScale', '1'), X('viewFormat', c), X('httpQuery', x), id='l'), id='n'))
    yield 'a network link control with an update', X('kml', X('NetworkLinkControl', X('minRefreshPeriod', '3'), X('maxSessionLength', '60'), X('cookie', a), X('message', b), X('linkName', c), X('expires', x), X('Update', X('targetHref', a), X('Change', X('Placemark', X('name', b), targetId='p'), X('Point', X('extrude', '1'), targetId='q')), X('Delete', X('Placemark', targetId='r')), X('Create', X('Folder', X('Placemark', X('name', c), id='new'), targetId='f')), X('Change', X('Style', targetId='s'))), X('LookAt', X('longitude', '1'), X('latitude', '2'), X('altitude', '3'), X('heading', '4'), X('tilt', '5'), X('range', '6'), X('altitudeMode', 'absolute'))))
    yield 'a polygon', X('kml', X('Placemark', X('Polygon', X('extrude', '1'), X('tessellate', '0'), X('altitudeMode', 'clampToGround'), X('outerBoundaryIs', X('LinearRing', X('tessellate', '1'))), X('innerBoundaryIs', X('LinearRing', X('extrude', '1'))), X('innerBoundaryIs', X('LinearRing', X('extrude', '0'))), id='g')))
    yield 'geometries in geometries', X('kml', X('Placemark', X('MultiGeometry', X('Point', X('extrude', '0')), X('MultiGeometry', X('LineString', X('tessellate', '1')), X('Point', id='q')), X('Model', X('altitudeMode', 'absolute'), X('Location', X('longitude', '1'), X('latitude', '2'), X('altitude', '3')), X('Orientation', X('heading', '1'), X('tilt', '2'), X('roll', '3')), X('Scale', X('x', '1'), X('y', '2'), X('z', '3')), X('Link', X('href', 'ha')), X('ResourceMap', X('Alias', X('targetHref', a), X('sourceHref', b)), X('Alias', X('sourceHref', c)))), X('LinearRing'))))
    yield 'overlays', X('kml', X('Folder', X('GroundOverlay', X('drawOrder', '1'), X('Icon', X('href', 'ha')), X('altitude', '2'), X('altitudeMode', 'absolute'), X('LatLonBox', X('north', '4'), X('south', '3'), X('east', '2'), X('west', '1'), X('rotation', '45'))), X('ScreenOverlay', X('Icon', X('href', 'hb')), X('overlayXY', x='0', y='1', xunits='fraction', yunits='pixels'), X('screenXY', x='1', y='2', xunits='insetPixels', yunits='fraction'), X('rotationXY', x='3', y='4'), X('size', x='5', y='6'), X('rotation', '9')), X('PhotoOverlay', X('Icon', X('href', 'hc')), X('rotation', '1'), X('ViewVolume', X('leftFov', '1'), X('rightFov', '2'), X('bottomFov', '3'), X('topFov', '4'), X('near', '5')), X('ImagePyramid', X('tileSize', '256'), X('maxWidth', '512'), X('maxHeight', '1024'), X('gridOrigin', 'upperLeft')), X('Point'), X('shape', 'cylinder'))))
    yield 'times, views and regions', X('kml', X('Document', X('Camera', X('longitude', '1'), X('latitude', '2'), X('altitude', '3'), X('heading', '4'), X('tilt', '5'), X('roll', '6'), X('altitudeMode', 'relativeToGround')), X('TimeSpan', X('begin', a), X('end', b)), X('styleUrl', c), X('Region', X('LatLonAltBox', X('north', '4'), X('south', '3'), X('east', '2'), X('west', '1'), X('minAltitude', '5'), X('maxAltitude', '6'), X('altitudeMode', 'absolute')), X('Lod', X('minLodPixels', '1'), X('maxLodPixels', '2'), X('minFadeExtent', '3'), X('maxFadeExtent', '4'))), X('Placemark', X('TimeStamp', X('when', x)))))
    yield 'data', X('kml', X('Document', X('Schema', X('SimpleField', X('displayName', a), name='F', type='int'), X('SimpleField', name='G'), name='s', id='i'), X('Placemark', X('ExtendedData', X('Data', X('displayName', b), X('value', c), name='d'), X('Data', X('value', x), name='e'), X('SchemaData', X('SimpleData', a, name='F'), X('SimpleData', b, name='G'), schemaUrl='#i'), X('SchemaData', schemaUrl='#j')))))
    yield 'a tour', X('kml', X('gx:Tour', X('name', a), X('gx:Playlist', X('gx:FlyTo', X('gx:duration', '2'), X('gx:flyToMode', 'smooth'), X('LookAt', X('range', '1'))), X('gx:Wait', X('gx:duration', '3')), X('gx:AnimatedUpdate', X('gx:duration', '4'), X('Update', X('targetHref', b), X('Change', X('IconStyle', X('scale', '2'), targetId='q')))), X('gx:TourControl', X('gx:playMode', 'pause')), X('gx:SoundCue', X('href', 'hc')), X('gx:Wait'), id='pl')))
    yield 'an Atom feed', X('atom:feed', X('atom:title', a), X('atom:link', rel='next', href='u'), X('atom:entry', X('atom:title', b), X('atom:category', term='t', scheme='s'), X('atom:link', rel='edit', href='v'), X('atom:content', src='u', type='t')), X('atom:entry', X('atom:id', c)))
    yield 'attributes that are not known', X('kml', X('Placemark', X('Point', id='g', foo='1', bar__baz='2'), id='p', targetId='t', other='x')),
    yield 'no root element kml', X('Folder', X('name', a), X('Placemark', X('name', b)))


def documents():
    """(what it is, document, what is written of it)"""
    n, t1, t2, t3 = T('n1'), T('t1'), T('t2'), T('t3')
    sch = E('Schema', E('SimpleField', name='F', type='string'), E('SimpleField', name='G', type='int'), name='S', parent='Placemark')
    wsch = W('Schema', W('SimpleField', name='F', type='string'), W('SimpleField', name='G', type='int'), name='S', parent='Placemark', id='S_id')

    def sd(*f, url='S_id'):
        return W('SchemaData', *[W('SimpleData', v, name=k) for k, v in f], schemaUrl=url)

    def ext(*f):
        return W('ExtendedData', sd(*f))
    yield 'plain', E('kml', E('Placemark', E('name', n), E('Point', E('extrude', '1')))), W('kml', W('Placemark', W('name', n), W('Point', W('extrude', '1'))))
    yield 'two of each', E('kml', E('Document', E('name', n), E('Folder', E('name', t1), id='f1'), E('Folder', E('name', t2), id='f2'), E('Placemark', E('name', t3)))), \
        W('kml', W('Document', W('name', n), W('Folder', W('name', t1), id='f1'), W('Folder', W('name', t2), id='f2'), W('Placemark', W('name', t3))))
    yield 'an unknown child', E('kml', E('Document', E('name', n), E('foo', 'a', E('bar', 'b', x='1'), 'c'), E('Folder'))), \
        W('kml', W('Document', W('name', n), W('Folder'), '<foo>a<bar x="1">b</bar>c</foo>\n'))
    yield 'unknown children twice', E('kml', E('Folder', E('foo'), E('name', n), E('bar', E('name', 'x')), E('Placemark', E('foo', 'z')))), \
        W('kml', W('Folder', W('name', n), W('Placemark', '<foo>z</foo>\n'), '<foo></foo>\n', '<bar><name>x</name></bar>\n'))
    yield 'text in pieces', E('kml', E('Placemark', E('name', 'a', 'b', 'c'))), W('kml', W('Placemark', W('name', 'abc')))
    yield 'descriptions deep in a description', E('kml', E('Placemark', E('description', 'a', E('p', E('q', E('description', 'b'), 'c'), E('description')), 'd'), E('name', n))), \
        W('kml', W('Placemark', W('name', n), W('description', 'a<p><q><description>b</description>c</q><description></description></p>d')))
    yield 'markup characters', E('kml', E('Placemark', E('name', 'a<b&c'), E('description', 'd<e&f', E('b', 'g&h', q='i"j')), E('foo', 'k<l', E('bar', r='m"n<o')))), \
        W('kml', W('Placemark', W('name', 'a<b&c'), W('description', 'd<e&f<b q="i"j">g&h</b>'), '<foo>k&lt;l<bar r="m&quot;n&lt;o"></bar></foo>\n'))
    yield 'markup in a description', E('kml', E('Placemark', E('description', 'a', E('b', 'c'), 'd', E('description', 'e')), E('name', n))), \
        W('kml', W('Placemark', W('name', n), W('description', 'a<b>c</b>d<description>e</description>')))
    yield 'namespaces of the root', ('kml', [('xmlns', 'u:k'), ('xmlns:gx', 'u:g'), ('foo', 'bar')], [E('Placemark')]), ('kml', {'xmlns': S('u:k'), 'xmlns:gx': S('u:g'), 'foo': S('bar')}, [W('Placemark')])
    yield 'an icon of a style and one of an overlay', E('kml', E('Document', E('Style', E('IconStyle', E('Icon', E('href', 'h1')))), E('GroundOverlay', E('Icon', E('href', 'h2'), E('refreshMode', 'onChange'))))), \
        W('kml', W('Document', W('Style', W('IconStyle', W('Icon', W('href', 'h1')))), W('GroundOverlay', W('Icon', W('href', 'h2'), W('refreshMode', 'onChange')))))
    yield 'misplaced', E('kml', E('Placemark', E('coordinates'), E('latitude', t1), E('name', n), E('Folder', E('name', t2)))), \
        W('kml', W('Placemark', W('name', n), W('coordinates'), W('latitude', t1), W('Folder', W('name', t2))))
    yield 'deep folders', E('kml', E('Folder', E('Folder', E('Folder', E('Folder', E('name', n)), E('Placemark')), E('Placemark')), E('Placemark'))), \
        W('kml', W('Folder', W('Folder', W('Folder', W('Folder', W('name', n)), W('Placemark')), W('Placemark')), W('Placemark')))
    # placemarks under the name of a schema, as KML 2.0 had them
    yield 'a schema and its placemark', E('kml', E('Document', sch, E('S', E('name', n), E('F', t1), E('G', t2)))), \
        W('kml', W('Document', wsch, W('Placemark', W('name', n), ext(('F', t1), ('G', t2)))))
    yield 'a schema and two placemarks', E('kml', E('Document', sch, E('S', E('F', t1)), E('S', E('name', n), E('G', t2), E('F', t3)))), \
        W('kml', W('Document', wsch, W('Placemark', ext(('F', t1))), W('Placemark', W('name', n), ext(('G', t2), ('F', t3)))))
    yield 'a schema and a placemark without fields', E('kml', E('Document', sch, E('S', E('F', t1)), E('S', E('name', n)), E('Placemark', E('name', t2)))), \
        W('kml', W('Document', wsch, W('Placemark', ext(('F', t1))), W('Placemark', W('name', n), ext()), W('Placemark', W('name', t2))))
    yield 'fields among others', E('kml', E('Document', sch, E('S', E('F', t1), E('Point', E('extrude', '1')), E('visibility', '0'), E('G', t2), E('foo', 'x'), id='p1'))), \
        W('kml', W('Document', wsch, W('Placemark', W('visibility', '0'), ext(('F', t1), ('G', t2)), W('Point', W('extrude', '1')), '<foo>x</foo>\n', id='p1')))
    yield 'a field twice', E('kml', E('Document', sch, E('S', E('F', t1), E('F', t2)))), W('kml', W('Document', wsch, W('Placemark', ext(('F', t1), ('F', t2)))))
    yield 'an empty field', E('kml', E('Document', sch, E('S', E('F'), E('G', t2)))), W('kml', W('Document', wsch, W('Placemark', ext(('F', ''), ('G', t2)))))
    yield 'a field in pieces', E('kml', E('Document', sch, E('S', E('F', 'a', 'b')))), W('kml', W('Document', wsch, W('Placemark', ext(('F', 'ab')))))
    yield 'extended data besides the fields', E('kml', E('Document', sch, E('S', E('ExtendedData', E('Data', E('value', t1), name='d')), E('F', t2)))), \
        W('kml', W('Document', wsch, W('Placemark', W('ExtendedData', W('Data', W('value', t1), name='d'), sd(('F', t2))))))
    yield 'the schema in a folder', E('kml', E('Folder', E('Document', sch), E('S', E('F', t1)))), W('kml', W('Folder', W('Document', wsch), W('Placemark', ext(('F', t1)))))
    yield 'a schema that extends nothing', E('kml', E('Document', E('Schema', E('SimpleField', name='F', type='string'), name='S', id='q'), E('S', E('F', t1)))), \
        W('kml', W('Document', W('Schema', W('SimpleField', name='F', type='string'), name='S', id='q'), T('raw', S('<S><F>'), t1, S('</F></S>\n'))))
    yield 'a schema without a name', E('kml', E('Document', E('Schema', E('SimpleField', name='F', type='string'), parent='Placemark', id='q'), E('S', 'x'))), \
        W('kml', W('Document', W('Schema', W('SimpleField', name='F', type='string'), parent='Placemark', id='q'), '<S>x</S>\n'))
    yield 'the name before its schema', E('kml', E('Document', E('S', 'x'), sch, E('S', E('F', t1)))), W('kml', W('Document', wsch, W('Placemark', ext(('F', t1))), '<S>x</S>\n'))
    yield 'a field without a name', E('kml', E('Document', E('Schema', E('SimpleField', type='string'), E('SimpleField', name='F'), name='S', parent='Placemark'), E('S', E('F', t1)))), \
        W('kml', W('Document', W('Schema', W('SimpleField', type='string'), W('SimpleField', name='F'), name='S', parent='Placemark', id='S_id'), W('Placemark', ext(('F', t1)))))
    yield 'a schema twice', E('kml', E('Document', sch, E('Schema', E('SimpleField', name='H', type='string'), name='R', parent='Placemark'), E('R', E('H', t1)))), \
        W('kml', W('Document', wsch, W('Schema', W('SimpleField', name='H', type='string'), name='R', parent='Placemark', id='R_id'), W('Placemark', W('ExtendedData', sd(('H', t1), url='R_id')))))
    yield 'unknown in a field', E('kml', E('Document', sch, E('S', E('F', t1, E('b', 'x')), E('name', n)))), None
    yield 'nothing known', E('foo'), None


def raw(t):
    """texts put together from parts, as one text"""
    if isinstance(t, tuple) and t[:2] == ('t', 'raw'):
        r = t[2]
        for x in t[3:]:
            r = mk_cat(r, x)
        return r
    if isinstance(t, tuple) and len(t) == 3 and isinstance(t[1], dict):
        return (t[0], t[1], [raw(c) for c in t[2]])
    return t


def reading(chk, d):
    f = d.fn1(KH + '::EndElement')
    nk = names(d)

    def one(c, it):
        key, doc, want = it
        cl = reader(d, nk)
        cl.events = {'kmlbase::EscapeXml': lambda ip, st, fr, g, this, args, node: escaped(ip, st, g, args)}
        ip, rs = read(d, cl, doc)

        def expect(q, s):
            r = s.mem[('ret',)]
            stop = ('stop',) in s.trace
            if key == 'nothing known':
                return None if stop and r == ZERO else 'is read'
            if stop:
                return 'stops the parser'
            if r == ZERO:
                return 'gives nothing'
            if want is None:
                return None
            g = tree(d, ip, cl, s, r)
            return same(g[0], raw(want)) if len(g) == 1 else 'gives %d elements' % len(g)
        rs = [s for s, v in rs if not s.mem.update({('ret',): v})]
        report(c, 'D6', key, f, [(s, s.mem[('ret',)]) for s in rs], expect, ip)
    docs = list(documents())
    for n, *e in standing():
        e = e[0][0] if isinstance(e[0], tuple) and isinstance(e[0][0], tuple) else e[0]
        docs.append((n, e, as_is(e)))
    harness.parallel(chk, docs, one)


def escaped(ip, st, g, args):
    v = models.valarg(ip, st, g, 0, args)
    if v[0] == 't':
        return [(st, v)]
    return None


# ---- features of a document ---------------------------------------------------------------------
def features(chk, d):
    f = d.fn1('kmlengine::GetRootFeature')
    for what in ('nothing', 'a kml with a feature', 'a kml without', 'a folder', 'a point', 'any feature', 'anything'):
        ip = EInterp(d.db, ICl())
        st = State()
        R = ZERO
        st, fe = element(d, ip, st, 'Placemark', 'FE')
        if 'kml' in what:
            st, R = element(d, ip, st, 'Kml', 'KML', *([('set_feature', fe)] if 'without' not in what else []))
        elif what in ('a folder', 'a point'):
            st, R = element(d, ip, st, 'Folder' if 'folder' in what else 'Point', 'R')
        elif what == 'any feature':
            R = obj(st, 'R', 'kmldom::Feature')
            st.assume(T('isa', R, 'kmldom::Feature'), True)
        elif what == 'anything':
            R = obj(st, 'R', 'kmldom::Element')
            st.assume(T('isa', R, 'kmldom::Kml'), False)
        rs = ip.run(f, None, [('p', ip.tmp(st, R))], st)

        def expect(q, s):
            q.ip = ip
            r = s.mem[('ret',)]
            if what == 'anything':
                if q.isa(R, 'kmldom::Feature'):
                    return None if r == R else 'is not the element itself'
                return None if r == ZERO else 'is %s' % pp(r)
            want = {'a kml with a feature': fe, 'a folder': R, 'any feature': R}.get(what, ZERO)
            return None if r == want else 'is %s instead of %s' % (pp(r), pp(want))
        report(chk, 'D7', 'the root feature of %s' % what, f, rs, expect, ip)

    g = d.fn1('kmlengine::VisitFeatureHierarchy')

    class V(ICl):
        def call(self, ip, st, fr, fn, this, args, node):
            if this == T('VISITOR') and fn['n'] == 'VisitFeature':
                st.trace = st.trace + (('visit', models.valarg(ip, st, fn, 0, args)),)
                return [(st, VOID)]
            return super().call(ip, st, fr, fn, this, args, node)

    def shapes(n):
        """trees of features: container -> list of subtrees, 'x' -> a leaf"""
        yield 'x'
        if n:
            sub = list(shapes(n - 1))
            for k in range(0, 3):
                for c in itertools.product(sub, repeat=k):
                    yield list(c)
    for sh in [None] + list(shapes(2)) + [[[[['x'], 'x'], 'x'], 'x'], ['x', [], ['x', 'x', ['x']], 'x']]:
        ip = EInterp(d.db, V())
        ip.recursion_limit = 8
        ip.max_depth = 60
        st = State()
        order = []

        def build(st, t):
            i = len(order)
            st, o = element(d, ip, st, ('Placemark', 'NetworkLink', 'GroundOverlay')[i % 3] if t == 'x' else ('Document', 'Folder')[i % 2], 'F%d' % i)
            order.append(o)
            if t != 'x':
                for k in t:
                    st, c = build(st, k)
                    st, _ = do(ip, st, o, 'kmldom::Container', 'add_feature', c)
            return st, o
        R = ZERO
        if sh is not None:
            st, R = build(st, sh)
        v = T('VISITOR')
        st.cls[v] = 'kmlengine::FeatureVisitor'
        st.assume(mk_nz(v), True)
        rs = ip.run(g, None, [('p', ip.tmp(st, R)), v], st)

        def expect(q, s):
            got = [e[1] for e in s.trace if e[0] == 'visit']
            return None if got == order else 'visits %s instead of %s' % ([pp(x) for x in got], [pp(x) for x in order])
        report(chk, 'D7', 'visiting %s' % (sh,), g, rs, expect, ip)


def oldschema(chk, d):
    f = d.fn1('kmlengine::ConvertOldSchema')
    cases = [('<S><name>n</name></S>', '<name>n</name>'), ('<S></S>', ''), ('<R>x</R>', None), ('', None), ('S', None), ('<S', None), ('<S>', None), ('<S>x</R>', None), ('x<S></S>', None), ('<T>a<S>b</S></T>', 'a<S>b</S>'),
             ('<S>a</S>tail', 'a'), ('<>x</>', None)]
    for t, want in cases:
        for nul in (False, True):
            ip = EInterp(d.db, ICl())
            st = State()
            m = ip.tmp(st, models.map_of([(S('S'), T('SCHEMA1')), (S('T'), T('SCHEMA2'))]))
            o = ip.tmp(st, S('old'))
            rs = ip.run(f, None, [('p', ip.tmp(st, S(t))), ('p', m), ZERO if nul else ('p', o)], st)

            def expect(q, s):
                r = q(mk_nz(s.mem[('ret',)]))
                w = want is not None and not nul
                if r != w:
                    return 'is %s' % ('converted' if r else 'refused')
                g = ip.load(s, o)
                w = S('<Placemark>%s</Placemark>' % want) if w else S('old')
                return None if g == w else 'gives %s instead of %s' % (pp(g), pp(w))
            report(chk, 'D8', 'converting %r%s' % (t, ' to nothing' if nul else ''), f, rs, expect, ip)
    f = d.fn1('kmlengine::ParseOldSchema')
    for t, ok in (('<S>x</S>', True), ('<R>x</R>', False)):
        class P(ICl):
            def call(self, ip, st, fr, g, this, args, node):
                if g['qn'] == 'kmldom::Parse':
                    st.trace = st.trace + (('parse', models.valarg(ip, st, g, 0, args), args[1]),)
                    return [(st, T('OBJ', 'ROOT'))]
                return super().call(ip, st, fr, g, this, args, node)
        ip = EInterp(d.db, P())
        st = State()
        R = obj(st, 'ROOT', 'kmldom::Placemark')
        st.mem[('exact', R)] = ONE
        m = ip.tmp(st, models.map_of([(S('S'), T('SCHEMA1'))]))
        e = ip.tmp(st, S(''))
        rs = ip.run(f, None, [('p', ip.tmp(st, S(t))), ('p', m), ('p', e)], st)

        def expect(q, s):
            w = (('parse', S('<Placemark>x</Placemark>'), ('p', e)),) if ok else ()
            if s.trace != w:
                return 'parses %s' % pp(s.trace)
            return None if s.mem[('ret',)] == (R if ok else ZERO) else 'gives %s' % pp(s.mem[('ret',)])
        report(chk, 'D8', 'parsing %r' % t, f, rs, expect, ip)


def run(chk, db):
    d = Dom(db)
    d.classes()
    chk.rule('D1', 'every namespace id has its standard prefix and address; none is found for none')
    chk.rule('D2', 'the root declares the namespace of every element and field written below it, under its standard address, and no name under another address')
    chk.rule('D3', 'writing a file gives the header with its encoding, then the root with its namespaces declared; nothing is claimed written where nothing is')
    chk.rule('D4', 'namespace declarations are found by prefix and by address exactly as given')
    chk.rule('D5', 'names in a namespace are handed on with the prefix known for it, without one in the default namespace')
    chk.rule('D6', 'a document is read as the tree it describes: every element, field, text and attribute once, unknown ones as they stand, old schema placemarks as placemarks with their data')
    chk.rule('D7', 'the root feature is that of the kml element or the element itself; visiting a hierarchy reaches every feature once, parents first, in order')
    chk.rule('D8', 'text in the name of a known schema becomes a placemark with the same content, any other is refused')
    for g in (table, spaces, writing, handlers, reading, features, oldschema):
        guard(chk, g.__name__, g, chk, d)
    return {}
