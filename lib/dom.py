"""Shared machinery for the kmldom analyses: element classes, the factory, the
abstract serializer sink and the ToString/FromString/Xsd primitives."""
from absint import (Interp, Client, State, Frame, T, ZERO, ONE, UNDEF, VOID, mk_eq, mk_not, mk_nz, mk_size,
                    mentions, subterms, strip_type, kind_of_class, truth_of)
import models
from progdb import AnalysisBroken

S = T('SERIALIZER')
CD = T('CHARDATA')

SINK = {'BeginById', 'End', 'SaveElement', 'SaveElementGroup', 'SaveStringFieldById', 'SaveContent', 'SaveVec3',
        'SaveSimpleVec3', 'Indent', 'SaveColor', 'BeginElementArray', 'EndElementArray', 'BeginElementGroupArray',
        'EndElementGroupArray'}


def norm_event(ip, st, n, v):
    """serializer call -> what it says about the document"""
    if n in ('SaveElement', 'SaveElementGroup'):
        return ('Emit', v[0])
    if n == 'SaveStringFieldById':
        return ('Field', v[0], v[1])
    if n == 'SaveColor':
        c = v[1]
        if c[0] == 'rec':
            d = dict(c[2])
            c = d.get('kmlbase::Color32::color_abgr_', c)
        return ('Field', v[0], simp_tostr('color', c))
    return (n,) + tuple(v)


def simp_parse(kind, s):
    if s[0] == 't' and s[1] == 'tostr' and s[2] == kind:
        return s[3]
    if kind == 'string':
        return s
    if kind in ('int', 'unsigned int', 'size_t', 'long', 'unsigned long') and s[0] == 's' and s[1].lstrip('-').isdigit() and str(int(s[1])) == s[1]:
        return ('c', int(s[1]))
    if kind == 'color' and s[0] == 's':
        try:
            return ('c', int(s[1], 16))
        except ValueError:
            pass
    return T('parse', kind, s)


def simp_tostr(kind, v):
    if kind == 'string':
        return v
    if kind in ('int', 'unsigned int', 'size_t', 'long', 'unsigned long') and v[0] == 'c':
        return ('s', str(v[1]))
    return T('tostr', kind, v)


KINDS = {'bool': 'bool', 'double': 'double', 'float': 'float', 'int': 'int'}


def typ_kind(t):
    n = strip_type(t.get('n', ''))
    if t.get('k') == 'ptr':
        n = strip_type(t.get('p', ''))
    if n.startswith(('std::basic_string<char', 'std::__cxx11::basic_string<char')) or n in ('char',):
        return 'string'
    if t.get('k') == 'enum':
        return 'enum:' + n
    return KINDS.get(n, n)


class DomClient(Client):
    """kmldom primitives; records serializer events accepted by self.want"""
    def __init__(self):
        self.want = lambda ev: True
        self.opaque_hits = {}
        self.roots = ()

    def call(self, ip, st, fr, f, this, args, node):
        qn = f['qn']
        if f.get('cls') == 'kmldom::Serializer' and this == S and f['n'] in SINK:
            v = []
            for i in range(len(args)):
                v.append(models.valarg(ip, st, f, i, args))
            n = f['n']
            if n == 'BeginById':
                # attributes: record the map value
                m = ip.load(st, ('m', args[1], 'kmlbase::Attributes::attributes_map_')) if args[1][0] in ('p', 'o') else T('attrs', args[1])
                v[1] = m
            ev = norm_event(ip, st, n, v)
            if self.want(ev):
                st.trace = st.trace + (ev,)
            return [(st, VOID)]
        if f['n'] == 'Serialize' and f.get('virt') and this not in self.roots and args == [S] \
                and ip.is_sub(f.get('cls', ''), 'kmldom::Element') and self.roots:
            ev = ('Emit', this)
            if self.want(ev):
                st.trace = st.trace + (ev,)
            return [(st, VOID)]
        if f.get('cls') == 'kmlbase::Color32':
            loc = ('m', this, 'kmlbase::Color32::color_abgr_')
            if f['n'] == 'set_color_abgr' and len(args) == 1 and typ_kind(ip.ty(f['params'][0]['t'])) == 'string':
                ip.store(st, loc, simp_parse('color', models.valarg(ip, st, f, 0, args)), fr, node)
                return [(st, VOID)]
            if f['n'] == 'to_string_abgr':
                return [(st, simp_tostr('color', ip.load(st, loc)))]
        base = qn.split('<')[0]
        if base == 'kmlbase::ToString' and f['kind'] == 'fn':
            pt = ip.ty(f['params'][0]['t'])
            v = models.valarg(ip, st, f, 0, args)
            return [(st, simp_tostr(typ_kind(pt), v))]
        if base == 'kmlbase::FromString' and f['kind'] == 'fn':
            pt = ip.ty(f['params'][1]['t'])
            s = models.valarg(ip, st, f, 0, args)
            out = args[1]
            res = []
            for x, b in ip.split(st, mk_nz(out), fr, node):
                if b:
                    ip.store(x, ip.deref_loc(out), simp_parse(typ_kind(pt), s), fr, node)
                res.append((x, VOID))
            return res
        if qn == 'kmldom::Xsd::GetSchema':
            return [(st, T('XSD'))]
        if qn == 'kmldom::KmlFactory::GetFactory':
            return [(st, T('FACTORY'))]
        if qn == 'kmldom::Xsd::EnumId':
            s = models.valarg(ip, st, f, 1, args)
            ty = args[0]
            if s[0] == 't' and s[1] == 'enumstr' and s[2] == ty:
                return [(st, s[3])]
            return [(st, T('enumid', ty, s))]
        if qn == 'kmldom::Xsd::EnumValue':
            v = args[1]
            if v[0] == 't' and v[1] == 'enumid' and v[2] == args[0]:
                return [(st, v[3])]
            return [(st, T('enumstr', args[0], v))]
        return self.call2(ip, st, fr, f, this, args, node)

    def call2(self, ip, st, fr, f, this, args, node):
        return None


class Dom:
    def __init__(self, db):
        self.db = db
        e = db.enums.get('kmldom::KmlDomType')
        if not e:
            raise AnalysisBroken('enum kmldom::KmlDomType not found')
        self.types = [(n, v) for n, v in e['e'] if n not in ('Type_Invalid',)]
        self.tname = {v: n for n, v in e['e']}
        self.tval = {n: v for n, v in e['e']}
        self.fcreate = self.fn1('kmldom::KmlFactory::CreateElementById')
        self._cls = None

    def fn1(self, qn, nparams=None):
        l = [self.db.functions[i] for i in self.db.by_qn.get(qn, []) if 'body' in self.db.functions[i]
             and (nparams is None or len(self.db.functions[i]['params']) == nparams)]
        if not l:
            raise AnalysisBroken('function %s not found' % qn)
        return l[0]

    def classes(self):
        """KmlDomType value -> class created by the factory"""
        if self._cls is None:
            self._cls = {}
            ip = Interp(self.db, DomClient())
            for n, t in self.types:
                rs = ip.run(self.fcreate, T('FACTORY'), [('c', t)])
                vs = set((v, s.cls.get(v)) for s, v in rs)
                if len(vs) != 1:
                    raise AnalysisBroken('factory result for %s not determined' % n)
                v, c = vs.pop()
                if v != ZERO:
                    self._cls[t] = c
        return self._cls

    def make(self, ip, st, t, obj):
        """construct an element of KmlDomType t at address obj -> states"""
        cls = self.classes().get(t)
        fr = Frame(('top',), {'qn': '<entry>', 'file': '', 'ret': 0}, None, None)
        if cls:
            st.cls[obj] = cls
            return ip.default_construct(st, obj, cls, fr), cls
        st.cls[obj] = 'kmldom::Field'
        f = None
        for m in self.db.records['kmldom::Field']['methods']:
            g = self.db.functions[m]
            if g['kind'] == 'ctor' and len(g['params']) == 1 and 'body' in g and not g.get('copy'):
                f = g
        if f is None:
            raise AnalysisBroken('kmldom::Field constructor not found')
        return [x for x, _ in ip.invoke(st, f, obj, [('c', t)], fr, None)], 'kmldom::Field'

    def unknown_object(self, st, name, cls):
        """an object of exact class cls whose fields are all unknown"""
        o = T('OBJ', name)
        st.cls[o] = cls
        st.assume(mk_nz(o), True)
        return o

    def concrete_classes(self):
        return sorted(set(self.classes().values()))
