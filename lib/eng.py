"""Shared client of the engine-level analyses: DOM casts and virtual calls on elements of unknown class become terms,
chosen functions become recorded events."""
from rt import *

ELEM = 'kmldom::Element'


def where(f):
    return '%s:%s %s' % (f['file'].replace('/repo/src/kml/', ''), f['line'], f['qn'])


def pointee_cls(t):
    n = strip_type(t.get('n', ''))
    if '<' in n and kind_of_class(n) == 'smart':
        return n[n.index('<') + 1:n.rindex('>')].replace(' const', '').replace('const ', '').strip()
    if t.get('k') == 'ptr':
        return strip_type(t.get('p', ''))
    return n


class EngClient(DomClient):
    """events: {qualified name: handler or True}.  True = record ('name', this?, values...) and return a fresh-free term."""
    def __init__(self, db=None):
        super().__init__()
        self.events = {}
        self.isa_cache = {}

    def vals(self, ip, st, f, args):
        return tuple(models.valarg(ip, st, f, i, args) for i in range(len(args)))

    def call(self, ip, st, fr, f, this, args, node):
        h = self.events.get(f['qn']) or self.events.get(f['qn'].split('<')[0])
        if h is not None:
            if h is True:
                v = self.vals(ip, st, f, args)
                ev = (f['qn'].split('::')[-1].split('<')[0],) + ((this,) if this is not None else ()) + v
                st.trace = st.trace + (ev,)
                return [(st, T('ret', *ev))]
            r = h(ip, st, fr, f, this, args, node)
            if r is not None:
                return r
        return super().call(ip, st, fr, f, this, args, node)

    def exact(self, ip, st, v):
        """class of an object whose exact class is known"""
        return st.cls.get(v) if (v[0] == 'o' or v[:2] == ('t', 'OBJ')) else None

    def call2(self, ip, st, fr, f, this, args, node):
        base = f['qn'].split('<')[0]
        n = f['n']
        if base.startswith('kmldom::As') and f['kind'] == 'fn' and len(args) == 1:
            v = models.valarg(ip, st, f, 0, args)
            c = pointee_cls(ip.ty(f['ret']))
            return self.cast(ip, st, fr, v, c, node)
        if this is not None and f.get('virt') and ip.is_sub(f.get('cls', ''), ELEM) and not self.known_class(ip, st, this):
            if n == 'Type' and not args:
                return [(st, T('etype', this))]
            if n == 'IsA' and len(args) == 1:
                return [(st, T('isatype', this, args[0]))]
        return self.call3(ip, st, fr, f, this, args, node)

    def call3(self, ip, st, fr, f, this, args, node):
        return None

    def known_class(self, ip, st, v):
        c = st.cls.get(v)
        return c is not None and st.mem.get(('exact', v)) == ONE

    def cast(self, ip, st, fr, v, c, node):
        if v == ZERO:
            return [(st, ZERO)]
        k = st.cls.get(v)
        if k and ip.is_sub(k, c):
            if st.decide(mk_nz(v)) is True:
                return [(st, v)]
            return [(x, v if b else ZERO) for x, b in ip.split(st, mk_nz(v), fr, node)]
        if k and self.known_class(ip, st, v):
            return [(st, ZERO)]
        out = []
        for x, b in ip.split(st, mk_nz(v), fr, node):
            if not b:
                out.append((x, ZERO))
                continue
            kn = isa_known(ip, x, v, c)
            if kn is not None:
                out.append((x, v if kn else ZERO))
                continue
            for y, b2 in ip.split(x, T('isa', v, c), fr, node):
                out.append((y, v if b2 else ZERO))
        return out


def isa_known(ip, st, v, c):
    """is v of class c, by what is known about its class?  (the element classes form a tree)"""
    for k, b in st.facts.items():
        if k[1] == 'nz':
            k = k[2]
        if k[0] != 't' or k[1] != 'isa' or k[2] != v:
            continue
        c2 = k[3]
        if b and ip.is_sub(c2, c):
            return True
        if b and not ip.is_sub(c, c2):
            return False
        if not b and ip.is_sub(c, c2):
            return False
    return None


def pp(t, depth=0):
    """readable form of a term"""
    if not isinstance(t, tuple):
        return str(t)
    if not t:
        return '()'
    if depth > 12:
        return '..'
    d = depth + 1
    k = t[0]
    if k == 'c' and len(t) == 2:
        return str(t[1])
    if k == 's' and len(t) == 2:
        return '"%s"' % (t[1],)
    if k == 't':
        if t[1] == 'OBJ':
            return str(t[2])
        if len(t) == 2:
            return str(t[1])
        if t[1] in ('lw', 'iv') and isinstance(t[2], tuple) and len(t[2]) >= 4:
            return '%s[%s %s%s]' % (t[1], t[2][2], pp(t[2][-1], d), ''.join(' ' + pp(x, d) for x in t[3:]))
        return '%s(%s)' % (t[1], ','.join(pp(x, d) for x in t[2:]))
    if k == 'o':
        return 'o%s' % (t[1],)
    if k == 'm' and len(t) == 3:
        return '%s.%s' % (pp(t[1], d), str(t[2]).split('::')[-1])
    if k == 'p' and len(t) == 2:
        return '&%s' % pp(t[1], d)
    if k == 'v':
        return 'v:' + str(t[-1]).split('::')[-1]
    if k == 'e':
        return '%s[%s]' % (pp(t[1], d), pp(t[2], d))
    return '(' + ' '.join(pp(x, d) for x in t) + ')'


class Undecided(Exception):
    def __init__(self, atom):
        self.atom = atom


class Q:
    """questions an expectation asks about a final state; undecided ones are answered both ways"""
    ip = None

    def __init__(self, s):
        self.s = s

    def __call__(self, atom):
        r = self.s.decide(atom)
        if r is None:
            raise Undecided(atom)
        return r

    def null(self, v):
        return not self(mk_nz(v))

    def isa(self, v, c):
        k = isa_known(self.ip, self.s, v, c) if self.ip else None
        return self(T('isa', v, c)) if k is None else k

    def eq(self, a, b):
        return self(mk_eq(a, b))

    def mem(self, m, k):
        return self(models.mk_mapmem(m, k))

    def val(self, m, k):
        return models.mk_mapget(m, k)


def judge(s, expect, depth=0):
    """expect(q, state) -> None (fine) or a description.  All answers to undecided questions are tried; -> first description"""
    try:
        return expect(Q(s), s)
    except Undecided as u:
        if depth > 10:
            raise AnalysisBroken('expectation asks too many questions')
        for b in (True, False):
            x = s.copy()
            if x.assume(u.atom, b) is None:
                continue
            r = judge(x, expect, depth + 1)
            if r:
                return r
        return None


class EInterp(Interp):
    keep_facts = True

    def __init__(self, db, client, **kw):
        super().__init__(db, client, **kw)
        Q.ip = self
        self.max_states = 256
        self.loop_states = 128


def obj(st, name, cls, **fields):
    o = T('OBJ', name)
    st.cls[o] = cls
    st.assume(mk_nz(o), True)
    return o


def field(d, ip, cls, name):
    """location key of a field by its short name, found in the class or a base"""
    for f in ip.all_fields(cls):
        if f[0].split('::')[-1] == name:
            return f[0]
    raise AnalysisBroken('%s has no field %s' % (cls, name))
