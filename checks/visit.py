"""Visitors: every element reports itself under its own class, falls back to its base class, and leads to each of its children once."""
from rt import *
import harness
from children import short
from typeid import where

DRV = T('OBJ', 'DRIVER')
VIS = T('OBJ', 'VISITOR')
MISQ = MIS


class Cl(DomClient):
    def __init__(self):
        super().__init__()
        self.keep = lambda ev: True

    def call(self, ip, st, fr, f, this, args, node):
        if this == DRV and f['n'] == 'Visit':
            ev = ('Visit', models.valarg(ip, st, f, 0, args))
            if self.keep(ev):
                st.trace = st.trace + (ev,)
            return [(st, VOID)]
        if this == VIS and f['n'].startswith('Visit'):
            st.trace = st.trace + ((f['n'], models.valarg(ip, st, f, 0, args)),)
            return [(st, VOID)]
        if f['n'] in ('Accept', 'AcceptChildren') and this == T('OBJ', 'E'):
            st.trace = st.trace + ((f['n'], args[0]),)
            return [(st, VOID)]
        return super().call(ip, st, fr, f, this, args, node)


def cname(c):
    return c.split('::')[-1]


def element_ptr(n):
    """intrusive_ptr<X> / vector<intrusive_ptr<X>> -> (X, is_vector)"""
    n = strip_type(n)
    vec = False
    if n.startswith('std::vector<'):
        vec = True
        n = n[len('std::vector<'):]
    if n.startswith('boost::intrusive_ptr<'):
        return n[len('boost::intrusive_ptr<'):].rstrip('>').split('>')[0].strip(), vec
    return None, vec


def run(chk, db):
    d = Dom(db)
    chk.rule('V1', 'accepting a visitor calls exactly one method of it, the one of the element\'s own class (or of its nearest base class that has one), with the element itself')
    chk.rule('V2', 'a visitor method that is not overridden passes the same element to the method of the nearest base class, once; the topmost does nothing')
    chk.rule('V3', 'visiting the children of an element visits each child held in its fields exactly once, whatever is set, in list order, and nothing that is not set')
    chk.rule('V4', 'the preorder driver visits an element before its children, the postorder driver after, each once')
    for p in (accept, defaults, children, drivers):
        harness.guard(chk, p.__name__, p, chk, d)
    return dict(element_classes=len(d.concrete_classes()), visitor_methods=len(vmethods(d)))


def vmethods(d):
    r = d.db.records.get('kmldom::Visitor')
    out = {}
    for m in r['methods']:
        f = d.db.functions[m]
        if f['n'].startswith('Visit') and len(f['params']) == 1 and f.get('virt') and f['kind'] == 'method':
            out[f['n'][5:]] = f
    return out


def nearest(d, C, names, strict=False):
    """the nearest class, C itself or a base, with a visitor method"""
    q = [C]
    first = True
    while q:
        c = q.pop(0)
        n = cname(c)
        if n in names and not (first and strict):
            return n
        first = False
        r = d.db.records.get(c)
        if r:
            q += [b['n'] for b in r['bases']]
    return None


def accept(chk, d):
    names = vmethods(d)
    for C in d.concrete_classes() + ['kmldom::Field']:
        ip = Interp(d.db, Cl())
        st = State()
        P = d.unknown_object(st, 'P', C)
        st.assume(mk_nz(VIS), True)
        st.cls[VIS] = 'kmldom::Visitor'
        fid = ip.lookup(C, 'Accept', 1)
        f = d.db.functions[fid]
        want = nearest(d, C, names)
        for s, _ in ip.call_virtual(st, 'Accept', C, P, [VIS]):
            if s.trace == (('Visit' + want, P),):
                chk.ok('V1', cname(C))
            else:
                chk.bad('V1', cname(C), where(f), '%s: accepting a visitor calls %s, not Visit%s once with the element'
                        % (cname(C), ', '.join('%s(%s)' % (e[0], short(e[1])) for e in s.trace) or 'nothing', want))


def defaults(chk, d):
    names = vmethods(d)
    for n, f in sorted(names.items()):
        if 'body' not in f:
            chk.unk('V2', n, 'no body')
            continue
        pt = None
        ip0 = Interp(d.db, Cl())
        C, _ = element_ptr(ip0.ty(f['params'][0]['t']).get('n', '') or ip0.ty(f['params'][0]['t']).get('p', ''))
        C = C or 'kmldom::' + n
        want = nearest(d, C, names, strict=True)

        class V(DomClient):
            def call(self, ip, st, fr, g, this, args, node):
                if this == VIS and g['n'].startswith('Visit') and g['n'] != 'Visit' + n:
                    st.trace = st.trace + ((g['n'], models.valarg(ip, st, g, 0, args)),)
                    return [(st, VOID)]
                return super().call(ip, st, fr, g, this, args, node)
        ip = Interp(d.db, V())
        st = State()
        E = T('OBJ', 'E')
        st.cls[E] = C
        st.assume(mk_nz(E), True)
        st.cls[VIS] = 'kmldom::Visitor'
        st.assume(mk_nz(VIS), True)
        for s, _ in ip.run(f, VIS, [('p', ip.tmp(st, E))], st):
            exp = (('Visit' + want, E),) if want else ()
            if s.trace == exp:
                chk.ok('V2', n)
            else:
                chk.bad('V2', n, where(f), 'Visit%s calls %s, not %s' % (n, ', '.join(e[0] for e in s.trace) or 'nothing', 'Visit' + want if want else 'nothing'))


def child_fields(d, ip, C):
    out = []
    for f in ip.all_fields(C):
        q, t = f[0], f[1]['t']
        x, vec = element_ptr(ip.ty(t).get('n', '') or ip.ty(t)['s'])
        if x and ip.is_sub(x, 'kmldom::Element') and q != MISQ:
            out.append((q, x, vec))
    return out


def children(chk, d):
    items = []
    ip = Interp(d.db, Cl())
    for C in d.concrete_classes():
        for q, x, vec in child_fields(d, ip, C):
            items.append((C, q, vec))

    def work(c, item):
        C, q, vec = item
        cl = Cl()
        ip = Interp(d.db, cl)
        st = State()
        P = d.unknown_object(st, 'P', C)
        st.assume(mk_nz(DRV), True)
        st.cls[DRV] = 'kmldom::VisitorDriver'
        V = T('init', ('m', P, q))
        cl.keep = lambda ev: mentions(ev, lambda y: y == V)
        f = d.db.functions[ip.lookup(C, 'AcceptChildren', 1)]
        key = '%s %s' % (cname(C), q.split('::')[-1])
        for s, _ in ip.call_virtual(st, 'AcceptChildren', C, P, [DRV]):
            if vec:
                r, shape = cover(s, s.trace, V)
                if r is None:
                    c.unk('V3', key, 'loop not understood')
                elif r and (s.trace or s.decide(mk_nz(mk_size(V))) is False):
                    c.ok('V3', key)
                else:
                    c.bad('V3', key, where(f), 'the children in %s of a %s are not visited each exactly once in order' % (q.split('::')[-1], cname(C)))
                continue
            nz = s.decide(mk_nz(V))
            n = len([1 for e, lp, k in flat(s.trace)])
            good = n == 0 if nz is False else n == 1 if nz is True else False
            if good and all(e == ('Visit', V) for e in s.trace):
                c.ok('V3', key)
            else:
                c.bad('V3', key, where(f), 'the child in %s of a %s is visited %d times when it is %s'
                      % (q.split('::')[-1], cname(C), n, 'set' if nz else 'not set' if nz is False else 'set or not'))
    harness.parallel(chk, items, work)


def drivers(chk, d):
    for n, exp in (('SimplePreorderDriver', ('Accept', 'AcceptChildren')), ('SimplePostorderDriver', ('AcceptChildren', 'Accept'))):
        f = d.fn1('kmldom::%s::Visit' % n)
        ip = Interp(d.db, Cl())
        st = State()
        D = T('OBJ', 'D')
        st.cls[D] = 'kmldom::' + n
        st.assume(mk_nz(D), True)
        E = T('OBJ', 'E')
        st.cls[E] = 'kmldom::Element'
        st.assume(mk_nz(E), True)
        st.mem[('m', D, 'kmldom::%s::visitor_' % n)] = VIS
        args = {'Accept': VIS, 'AcceptChildren': D}
        for s, _ in ip.run(f, D, [('p', ip.tmp(st, E))], st):
            if s.trace == tuple((e, args[e]) for e in exp):
                chk.ok('V4', n)
            else:
                chk.bad('V4', n, where(f), 'the driver does %s' % [e[0] for e in s.trace])
