"""Element names, element types, classes, casts and the factory agree."""
import json
import os
from rt import *
import harness
from children import short, where_of

SPEC = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'spec', 'names.json')


class Cl(DomClient):
    def __init__(self, xsd):
        super().__init__()
        self.xsd = xsd

    def call(self, ip, st, fr, f, this, args, node):
        if f['qn'] in ('kmldom::Xsd::GetSchema', 'kmldom::Xsd::EnumId', 'kmldom::Xsd::EnumValue') and self.xsd is not None:
            if f['n'] == 'GetSchema':
                for k, v in self.xsd[1].items():
                    st.mem[k] = v
                st.cls[self.xsd[0]] = 'kmldom::Xsd'
                st.assume(mk_nz(self.xsd[0]), True)
                return [(st, self.xsd[0])]
            return None
        return super().call(ip, st, fr, f, this, args, node)


def xsd_object(d):
    """the schema object as its constructor leaves it"""
    o = T('OBJ', 'XSD')
    st = State()
    st.cls[o] = 'kmldom::Xsd'
    st.assume(mk_nz(o), True)
    ip = Interp(d.db, DomClient())
    f = d.fn1('kmldom::Xsd::Xsd', 0)
    rs = ip.run(f, o, [], st)
    if len(rs) != 1:
        return None
    return o, {k: v for k, v in rs[0][0].mem.items() if k[0] == 'm' and k[1] == o}


def where(f):
    return '%s:%s %s' % (f['file'], f.get('line', '?'), f['qn'])


def single(rs):
    vs = set(v for s, v in rs)
    return vs.pop() if len(vs) == 1 else None


def chain(db, c):
    out, st = [], [c]
    while st:
        x = st.pop()
        if x in out:
            continue
        out.append(x)
        st += [b['n'] for b in db.records.get(x, {}).get('bases', [])]
    return out


def static_type(d, ip, c):
    """c::ElementType() declared in class c itself"""
    for m in d.db.records.get(c, {}).get('methods', []):
        f = d.db.functions.get(m)
        if f and f['n'] == 'ElementType' and 'body' in f and f.get('cls') == c and not f['params']:
            v = single(ip.run(f, None, []))
            return v, f
    for m in d.db.records.get(c, {}).get('methods', []):
        f = d.db.functions.get(m)
        if f and f['n'] == 'Type' and 'body' in f and f.get('cls') == c and not f['params'] and c not in ('kmldom::Element', 'kmldom::Field'):
            st = State()
            P = d.unknown_object(st, 'A', c)
            v = single(ip.run(f, P, [], st))
            return v, f
    return None, None


def pointee(ip, t):
    ty = ip.ty(t)
    if ty.get('k') == 'ptr':
        return strip_type(ty.get('p', ''))
    n = strip_type(ty.get('n', ''))
    if n.startswith('boost::intrusive_ptr<'):
        return strip_type(n[len('boost::intrusive_ptr<'):-1])
    return None


def run(chk, db):
    d = Dom(db)
    chk.rule('T1', 'the element the factory makes for type t reports type t')
    chk.rule('T2', 'IsA(u) of an element is true exactly for the types of its class and of its base classes')
    chk.rule('T3', 'AsX(e) returns e when the class of e is X or derives from X, and null otherwise, also for null')
    chk.rule('T4', 'a typed create function returns a new object of exactly the class it promises, of a type the factory makes that class for')
    chk.rule('T5', 'element name <-> type id is one-to-one over all known elements; anything else is unknown; lookup by name finds that id')
    chk.rule('T6', 'the factory makes an object for every concrete complex element of the schema table, and for no simple one; by-name creation agrees with by-id creation')
    chk.rule('T7', 'type ids carry the element names of the KML/Atom/xAL standard (spec/names.json)')
    chk.rule('T8', 'the printable name of every type id is the name of its enumerator')
    xsd = xsd_object(d)
    if xsd is None:
        chk.unk('T5', 'Xsd::Xsd', 'constructor not a single path')
        return dict(classes=0)
    ip = Interp(db, Cl(xsd))
    fac = d.classes()
    classes = d.concrete_classes()
    tn = d.tname
    stypes = {}
    for c in db.records:
        if c.startswith('kmldom::'):
            v, f = static_type(d, ip, c)
            if f is None:
                for b in chain(db, c)[1:]:
                    v, f = static_type(d, ip, b)
                    if f is not None:
                        break
            if f is not None:
                stypes[c] = v
    # ---- names
    f_name, f_id, f_ty = d.fn1('kmldom::Xsd::ElementName'), d.fn1('kmldom::Xsd::ElementId'), d.fn1('kmldom::Xsd::ElementType')

    def xrun(f, args):
        st = State()
        for k, v in xsd[1].items():
            st.mem[k] = v
        st.cls[xsd[0]] = 'kmldom::Xsd'
        st.assume(mk_nz(xsd[0]), True)
        a = [('p', ip.tmp(st, x)) if ip.ty(p['t']).get('ref') else x for p, x in zip(f['params'], args)]
        return single(ip.run(f, xsd[0], a, st))
    spec = json.load(open(SPEC))
    names = {}
    xtype = {}
    allt = [(n, t) for n, t in d.types if n != 'Type_Unknown']
    enum = db.enums['kmldom::KmlDomType']['e']
    inval = d.tval.get('Type_Invalid')
    xs = {n: v for n, v in db.enums['kmldom::XsdType']['e']}
    for n, t in allt:
        v = xrun(f_name, [('c', t)])
        if v is None or v[0] != 's':
            chk.bad('T5', n + ' name', where(f_name), 'the name of %s is not a constant of the table (%s)' % (n, short(v) if v else 'several'))
            continue
        names[t] = v[1]
        xtype[t] = xrun(f_ty, [('c', t)])
        if n in spec and 'name' in spec[n] and spec[n]['name'] != v[1]:
            chk.bad('T7', n, where(f_name), 'the element of type %s is called <%s>, the standard calls it <%s>' % (n, v[1], spec[n]['name']))
        else:
            chk.ok('T7', n)
        r = xrun(f_id, [v])
        if r == ('c', t):
            chk.ok('T5', '%s <%s>' % (n, v[1]))
        elif v[1] == spec.get(n, {}).get('name') and r is not None and r[0] == 'c' and spec.get(tn.get(r[1]), {}).get('name') == v[1]:
            chk.ok('T5', '%s <%s> shared by design with %s' % (n, v[1], tn[r[1]]))
        else:
            chk.bad('T5', n + ' id', where(f_id), 'looking up <%s>, the name of %s, gives %s' % (v[1], n, tn.get(r[1], r) if r and r[0] == 'c' else r))
    for name in ('', 'NoSuchElement', 'placemark'):
        r = xrun(f_id, [('s', name)])
        if r == ('c', d.tval['Type_Unknown']):
            chk.ok('T5')
        else:
            chk.bad('T5', 'unknown name', where(f_id), 'looking up the unknown name "%s" gives %s' % (name, r))
    for t in (0, -1, inval, inval + 1, 10 ** 6, -10 ** 6):
        r, r2 = xrun(f_name, [('c', t)]), xrun(f_ty, [('c', t)])
        if r == ('s', '') and r2 == ('c', xs['XSD_UNKNOWN']):
            chk.ok('T5')
        else:
            chk.bad('T5', 'invalid id', where(f_name), 'the id %d is no element, but has name %s and kind %s' % (t, short(r) if r else r, r2))
    for fid in db.by_qn.get('kmldom::kmlDomTypeToString', []):
        f = db.functions[fid]
        if 'body' not in f:
            continue
        for n, t in enum:
            r = single(ip.run(f, None, [('c', t)]))
            if r == ('s', n):
                chk.ok('T8', n)
            else:
                chk.bad('T8', n, where(f), 'the type %s is called %s' % (n, short(r) if r else '?'))
    # ---- factory
    f_by = d.fn1('kmldom::KmlFactory::CreateElementFromName')
    abstract = set(v[1] for c, v in stypes.items() if v and v[0] == 'c' and c not in classes)
    for n, t in allt:
        cx = xtype.get(t) == ('c', xs['XSD_COMPLEX_TYPE'])
        has = t in fac
        if n in spec:
            want = spec[n]['kind']
            got = 'complex' if cx else 'simple'
            if want != got:
                chk.bad('T6', n + ' kind', where(f_ty), '%s is a %s element but the schema table says %s' % (n, want, got))
                continue
            if want == 'complex' and not spec[n].get('abstract') and not has:
                chk.bad('T6', n, where(d.fcreate), 'the factory makes no object for the complex element %s' % n)
                continue
        if has and not cx:
            chk.bad('T6', n, where(d.fcreate), 'the factory makes an object for %s, which the schema table calls a simple element' % n)
            continue
        chk.ok('T6', n)
        if t in names and names[t]:
            st = State()
            st.assume(mk_nz(T('FACTORY')), True)
            rs = ip.run(f_by, T('FACTORY'), [('p', ip.tmp(st, ('s', names[t])))], st)
            got = set(s.cls.get(v) if v != ZERO else None for s, v in rs)
            r = xrun(f_id, [('s', names[t])])
            want = fac.get(r[1]) if r and r[0] == 'c' else None
            if got == {want}:
                chk.ok('T6')
            else:
                chk.bad('T6', n + ' by name', where(f_by), 'creating <%s> by name makes %s, by id %s' % (names[t], sorted(map(str, got)), want))

    # ---- per type: Type(), IsA
    def work(c, item):
        n, t = item
        cls = fac.get(t, 'kmldom::Field')
        st = State()
        E = ('o', 1)
        st.cnt = 1
        sts, _ = d.make(ip, st, t, E)
        ch = [x for x in chain(db, cls) if x.startswith('kmldom::')]
        want = set([t])
        for a in ch:
            v = stypes.get(a)
            if v is not None and v[0] == 'c' and fac.get(v[1], a) == a:
                want.add(v[1])
        for s in sts:
            vs = set(v for _, v in ip.call_virtual(s.copy(), 'Type', cls, E, []))
            if vs == {('c', t)}:
                c.ok('T1', n)
            else:
                c.bad('T1', n, where_of(d, cls, 'Type'), 'the element made for %s reports type %s' % (n, ', '.join(tn.get(v[1], str(v)) if v[0] == 'c' else short(v) for v in vs)))
            st0 = stypes.get(cls)
            if cls != 'kmldom::Field' and st0 is not None and st0 != ('c', t):
                if fac.get(st0[1]) != cls:
                    c.bad('T1', n + ' static', where_of(d, cls, 'Type'), 'the class %s made for %s declares type %s' % (cls, n, tn.get(st0[1])))
            for un, u in d.types:
                if u == 0:
                    continue
                vs = set()
                for x, v in ip.call_virtual(s.copy(), 'IsA', cls, E, [('c', u)]):
                    vs.add(truth_of(v) if v[0] != 't' else x.decide(v))
                if vs == {u in want}:
                    c.ok('T2')
                else:
                    c.bad('T2', '%s IsA %s' % (n, un), where_of(d, cls, 'IsA'), 'an element %s (%s) answers %s to "is it a %s"' % (n, cls, vs, un))
            for g in casts if t in fac or t not in abstract else ():
                X = pointee(ip, g['ret'])
                q = s.copy()
                byref = ip.ty(g['params'][0]['t']).get('ref')
                arg = ('p', ip.tmp(q, E)) if byref else E
                vs = set()
                for x, v in ip.run(g, None, [arg], q):
                    vs.add(v)
                exp = E if X in chain(db, cls) else ZERO
                if vs == {exp}:
                    c.ok('T3')
                else:
                    c.bad('T3', '%s(%s)' % (g['n'], cls.split('::')[-1]), where(g), '%s of an element of class %s gives %s' % (g['n'], cls, 'the element' if vs == {E} else 'null' if vs == {ZERO} else '?'))
    casts = []
    for f in db.functions.values():
        if f['kind'] == 'fn' and f['qn'].startswith('kmldom::As') and 'body' in f and len(f['params']) == 1:
            X = pointee(ip, f['ret'])
            A0 = pointee(ip, f['params'][0]['t'])
            if X and A0 == 'kmldom::Element' and ip.is_sub(X, 'kmldom::Element'):
                casts.append(f)
    casts.sort(key=lambda f: f['qn'])
    for g in casts:
        st = State()
        byref = ip.ty(g['params'][0]['t']).get('ref')
        arg = ('p', ip.tmp(st, ZERO)) if byref else ZERO
        r = single(ip.run(g, None, [arg], st))
        if r == ZERO:
            chk.ok('T3')
        else:
            chk.bad('T3', g['n'] + '(null)', where(g), '%s of a null pointer gives %s' % (g['n'], r))
        nm = 'kmldom::' + g['n'][2:]
        if nm in db.records and nm != pointee(ip, g['ret']):
            chk.bad('T3', g['n'] + ' type', where(g), '%s returns a pointer to %s' % (g['n'], pointee(ip, g['ret'])))
    # ---- typed creators
    for f in sorted((f for f in db.functions.values() if f.get('cls') == 'kmldom::KmlFactory' and f['n'].startswith('Create') and 'body' in f), key=lambda f: f['qn']):
        if f['params']:
            continue
        X = pointee(ip, f['ret'])
        rs = ip.run(f, T('FACTORY'), [])
        got = set(s.cls.get(v) if v[0] == 'o' else None for s, v in rs)
        if got != {X}:
            chk.bad('T4', f['n'], where(f), '%s returns an object of class %s' % (f['n'], ', '.join(map(str, got))))
            continue
        nm = 'kmldom::' + f['n'][6:]
        if nm in db.records and nm != X:
            chk.bad('T4', f['n'], where(f), '%s makes a %s' % (f['n'], X))
            continue
        ty = set()
        for s, v in rs:
            for x, r in ip.call_virtual(s.copy(), 'Type', X, v, []):
                ty.add(fac.get(r[1]) if r[0] == 'c' else None)
        if ty == {X}:
            chk.ok('T4', f['n'])
        else:
            chk.bad('T4', f['n'], where(f), '%s makes a %s whose type the factory would make as %s' % (f['n'], X, ty))
    harness.parallel(chk, [x for x in allt], work)
    return dict(types=len(allt), classes=len(classes), casts=len(casts))


def gen(db):
    d = Dom(db)
    import sys
    xsd = xsd_object(d)
    ip = Interp(db, Cl(xsd))
    out = {}
    f_name, f_ty = d.fn1('kmldom::Xsd::ElementName'), d.fn1('kmldom::Xsd::ElementType')
    xs = {v: n for n, v in db.enums['kmldom::XsdType']['e']}
    fac = d.classes()
    for n, t in d.types:
        if n == 'Type_Unknown':
            continue
        v = single(ip.run(f_name, xsd[0], [('c', t)]))
        k = single(ip.run(f_ty, xsd[0], [('c', t)]))
        o = dict(name=v[1], kind='complex' if xs[k[1]] == 'XSD_COMPLEX_TYPE' else 'simple')
        if o['kind'] == 'complex' and t not in fac:
            o['abstract'] = 1
        out[n] = o
    with open(SPEC, 'w') as f:
        f.write('{\n' + ',\n'.join(' %s: %s' % (json.dumps(k), json.dumps(v)) for k, v in out.items()) + '\n}\n')
    return out
