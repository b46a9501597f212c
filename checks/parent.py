"""Who owns an element: one parent at most, kept by every method that takes a child; deletion by index; reference counts."""
from rt import *
import harness
from children import short
from typeid import where
from visit import element_ptr, cname, child_fields

PAR = 'kmlbase::XmlElement::parent_'
CNT = 'kmlbase::Referent::ref_count_'


def run(chk, db):
    d = Dom(db)
    chk.rule('O1', 'a method that takes a child refuses one that already has a parent or is in another file: neither the element nor the child changes')
    chk.rule('O2', 'a child that is taken is held exactly once and has the element as its parent')
    chk.rule('O3', 'a NULL child changes nothing when added, and only empties the field when set')
    chk.rule('O4', 'deleting by index takes exactly that child out of the list and returns it; an index out of range changes nothing and returns NULL')
    chk.rule('O5', 'an element has at most one parent and one file for its whole life')
    chk.rule('O6', 'the reference count goes up by one per reference, down by one per release, and the object is deleted exactly when it reaches zero')
    chk.rule('O7', 'reading a child into an element makes the element its parent when it is held in a field')
    for p in (takers, deleters, setters, counts, readers):
        harness.guard(chk, p.__name__, p, chk, d)
    return dict(element_classes=len(d.concrete_classes()))


def classes_with_bases(d):
    ip = Interp(d.db, DomClient())
    out = []
    for c in sorted(ip.all_subs('kmldom::Element')):
        out.append(c)
    return out


def concrete_of(d, ip, c):
    for x in d.concrete_classes():
        if ip.is_sub(x, c):
            return x
    return None


def taking(d):
    """(class, method, child class) of every non-const method with one element parameter"""
    ip = Interp(d.db, DomClient())
    out = []
    for c in classes_with_bases(d):
        r = d.db.records.get(c)
        for m in r['methods']:
            f = d.db.functions[m]
            if f['kind'] != 'method' or f.get('const') or f.get('static') or len(f['params']) != 1 or 'body' not in f:
                continue
            if f['n'] in ('AddElement', 'SetParent', 'Accept', 'AcceptChildren') or f['n'].startswith('Visit'):
                continue
            t = ip.ty(f['params'][0]['t'])
            x, vec = element_ptr(t.get('n', '') or t.get('p', '') or t['s'])
            if x is None:
                s = t['s'].replace('const ', '').replace('&', '').strip()
                x, vec = element_ptr(s)
            if x and not vec and ip.is_sub(x, 'kmldom::Element') and concrete_of(d, ip, c):
                out.append((c, f['id'], x))
    return out


def arg(ip, st, f, v):
    t = ip.ty(f['params'][0]['t'])
    return ('p', ip.tmp(st, v)) if t.get('ref') else v


def object_mem(s, P):
    return {k: v for k, v in s.mem.items() if k[0] == 'm' and k[1] == P}


def prep(d, C, X, parent, file_):
    st = State()
    P = d.unknown_object(st, 'P', C)
    E = T('OBJ', 'E')
    st.cls[E] = X
    st.assume(mk_nz(E), True)
    st.mem[('m', E, PAR)] = parent
    F = T('FILE')
    st.mem[('m', P, XF)] = F
    st.mem[('m', E, XF)] = F if file_ else T('FILE2')
    if not file_:
        st.assume(mk_eq(F, T('FILE2')), False)
        st.assume(mk_eq(T('FILE2'), F), False)
    return st, P, E


def takers(chk, d):
    items = taking(d)
    chk.notes['child_taking_methods'] = len(items)

    def work(c, item):
        cls, fid, X = item
        f = d.db.functions[fid]
        ip0 = Interp(d.db, DomClient())
        C = concrete_of(d, ip0, cls)
        XC = concrete_of(d, ip0, X) or X
        key = '%s::%s' % (cname(cls), f['n'])
        flds = [('m', T('OBJ', 'P'), q) for q, x, vec in child_fields(d, ip0, C)]
        OTHER = T('OBJ', 'OTHER')
        for what, parent, file_ in (('has another parent', OTHER, True), ('is in another file', ZERO, False)):
            st, P, E = prep(d, C, XC, parent, file_)
            st.assume(mk_nz(OTHER), True)
            ip = Interp(d.db, DomClient())
            b = object_mem(st, P)
            for s, _ in ip.run(f, P, [arg(ip, st, f, E)], st):
                ch = [k for k, v in object_mem(s, P).items() if b.get(k, T('init', k)) != v]
                if ch:
                    c.bad('O1', key + ' ' + what, where(f), '%s takes a child that %s (%s changes)' % (key, what, ', '.join(k[2].split('::')[-1] for k in ch)))
                elif s.mem[('m', E, PAR)] != parent:
                    c.bad('O1', key + ' ' + what, where(f), 'a child that %s gets another parent' % what)
                else:
                    c.ok('O1', key + ' ' + what)
        st, P, E = prep(d, C, XC, ZERO, True)
        ip = Interp(d.db, DomClient())
        stores = False
        for s, _ in ip.run(f, P, [arg(ip, st, f, E)], st):
            held = []
            for k, v in object_mem(s, P).items():
                if v == E:
                    held.append(k)
                elif v[0] == 't' and v[1] == 'vapp' and v[3] == E and v[2] == T('init', k):
                    held.append(k)
                elif mentions(v, lambda y: y == E):
                    held += [k, k]
            stores = stores or bool(held)
            if not held and f['n'].startswith(('set_', 'add_')):
                c.bad('O2', key, where(f), '%s does not take a child that has no parent' % key)
            elif not held:
                continue
            elif len(held) != 1:
                c.bad('O2', key, where(f), '%s holds the child %d times' % (key, len(held)))
            elif s.mem[('m', E, PAR)] != P:
                c.bad('O2', key, where(f), '%s holds a child whose parent is not set to the element' % key)
            else:
                c.ok('O2', key)
        if not stores:
            return
        st = State()
        P = d.unknown_object(st, 'P', C)
        st.mem[('m', P, XF)] = T('FILE')
        ip = Interp(d.db, DomClient())
        b = object_mem(st, P)
        for s, _ in ip.run(f, P, [arg(ip, st, f, ZERO)], st):
            ch = {k: v for k, v in object_mem(s, P).items() if b.get(k, T('init', k)) != v}
            held = [k for k, v in object_mem(s, P).items()]
            if all(v == ZERO for v in ch.values()) and len(ch) <= 1:
                c.ok('O3', key)
            else:
                c.bad('O3', key, where(f), '%s of NULL changes %s' % (key, ', '.join('%s to %s' % (k[2].split('::')[-1], short(v)) for k, v in ch.items())))
    harness.parallel(chk, items, work)


def deleters(chk, d):
    ip0 = Interp(d.db, DomClient())
    items = []
    for c in classes_with_bases(d):
        for m in d.db.records[c]['methods']:
            f = d.db.functions[m]
            if f['kind'] == 'method' and f['n'].startswith('Delete') and f['n'].endswith('At') and len(f['params']) == 1 and 'body' in f and not f.get('static'):
                C = concrete_of(d, ip0, c)
                if C:
                    items.append((c, C, f['id']))
    chk.notes['delete_methods'] = len(items)
    for c, C, fid in items:
        f = d.db.functions[fid]
        key = '%s::%s' % (cname(c), f['n'])
        n = f['n'][len('Delete'):-len('At')].lower()
        ip = Interp(d.db, DomClient())
        st = State()
        P = d.unknown_object(st, 'P', C)
        I = T('I')
        for s, v in ip.run(f, P, [I], st):
            ch = {k: x for k, x in object_mem(s, P).items() if x != T('init', k)}
            if v == ZERO:
                rng = [k for k, val in s.facts.items() if k[:2] == ('t', 'lt') and k[2] == I and val is False]
                if ch:
                    chk.bad('O4', key, where(f), 'returns nothing but changes %s' % [k[2] for k in ch])
                elif not rng:
                    chk.bad('O4', key, where(f), 'returns nothing for an index that may be in range')
                else:
                    chk.ok('O4', key)
                continue
            if len(ch) != 1:
                chk.bad('O4', key, where(f), 'a deletion changes %d fields' % len(ch))
                continue
            k, x = next(iter(ch.items()))
            V = T('init', k)
            inr = s.decide(T('lt', I, mk_size(V))) is True
            if not inr:
                chk.bad('O4', key, where(f), 'deletes at an index that may be out of range')
            elif v != T('at', V, I):
                chk.bad('O4', key, where(f), 'returns %s, not the child at the index' % short(v))
            elif x[:3] != ('t', 'verase', V) or len(x) != 4 or not (x[3][0] == 'it' and x[3][2] in (I, T('+', ZERO, I)) or x[3] == I):
                chk.bad('O4', key, where(f), 'the list becomes %s' % short(x))
            elif n not in k[2].split('::')[-1].replace('_', ''):
                chk.bad('O4', key, where(f), 'deletes from %s' % k[2])
            else:
                chk.ok('O4', key)


def setters(chk, d):
    for n, fld, bad in (('SetParent', PAR, None), ('SetXmlFile', XF, None)):
        f = d.fn1('kmlbase::XmlElement::' + n)
        for had in (False, True):
            st = State()
            P = d.unknown_object(st, 'P', 'kmldom::Folder')
            N = T('NEW')
            st.cls[N] = 'kmldom::Folder' if n == 'SetParent' else 'kmlbase::XmlFile'
            st.assume(mk_nz(N), True)
            OLD = T('OLD') if had else ZERO
            if had:
                st.assume(mk_nz(OLD), True)
            st.mem[('m', P, fld)] = OLD
            if n == 'SetParent':
                st.mem[('m', P, XF)] = T('FILE')
                st.mem[('m', N, XF)] = T('FILE')
            ip = Interp(d.db, DomClient())
            for s, v in ip.run(f, P, [('p', ip.tmp(st, N)) if n == 'SetParent' else N], st):
                now = s.mem[('m', P, fld)]
                v = truth_of(v) if truth_of(v) is not None else s.decide(v)
                key = '%s %s' % (n, 'again' if had else 'first')
                if (now, v) == ((OLD, False) if had else (N, True)):
                    chk.ok('O5', key)
                else:
                    chk.bad('O5', key, where(f), '%s of an element that %s one: it becomes %s, result %s' % (n, 'has' if had else 'has no', short(now), v))


def counts(chk, d):
    R = T('OBJ', 'R')

    class C(DomClient):
        def call2(self, ip, st, fr, f, this, args, node):
            return None
    for n, delta in (('kmlbase::intrusive_ptr_add_ref', 1), ('kmlbase::intrusive_ptr_release', -1)):
        f = d.fn1(n)
        for start in (0, 1, 2, 7):
            dels = []

            class Ip(Interp):
                def delete(self, st, v, fr, node, cls):
                    st.trace = st.trace + (('delete', v),)
                    return [st]

                def run_dtor_dyn(self, st, v, cls, fr):
                    st.trace = st.trace + (('delete', v),)
                    return [st]
            ip = Ip(d.db, C())
            st = State()
            st.cls[R] = 'kmldom::Folder'
            st.assume(mk_nz(R), True)
            st.mem[('m', R, CNT)] = ('c', start)
            if delta < 0 and start == 0:
                continue
            for s, _ in ip.run(f, None, [R], st):
                now = s.mem.get(('m', R, CNT))
                deld = len([e for e in s.trace if e[0] == 'delete'])
                want = 1 if start + delta <= 0 else 0
                if (now == ('c', start + delta) or want) and deld == want:
                    chk.ok('O6', '%s at %d' % (n, start))
                else:
                    chk.bad('O6', '%s at %d' % (n, start), where(f), 'with %d references: count becomes %s, deleted %d times' % (start, short(now), deld))
    # a new object has no references
    f = [d.db.functions[m] for m in d.db.records['kmlbase::Referent']['methods'] if d.db.functions[m]['kind'] == 'ctor' and 'body' in d.db.functions[m]
         and not d.db.functions[m].get('copy')]
    if f:
        ip = Interp(d.db, C())
        st = State()
        fr = Frame(('top',), {'qn': '<entry>', 'file': '', 'ret': 0}, None, None)
        for s, _ in ip.invoke(st, f[0], R, [], fr, None):
            if s.mem.get(('m', R, CNT)) == ZERO:
                chk.ok('O6', 'new')
            else:
                chk.bad('O6', 'new', where(f[0]), 'a new object starts with %s references' % short(s.mem.get(('m', R, CNT), T('none'))))


def readers(chk, d):
    cl = d.classes()
    items = [(C, t) for C in d.concrete_classes() for t in cl]

    def work(c, item):
        C, t = item
        p = Pair(d, C, t)
        for s in p.add():
            held = [k for k, v in object_mem(s, p.P).items() if k[2] != MIS and (v == p.E or (v[0] == 't' and v[1] == 'vapp' and v[3] == p.E))]
            if not held:
                continue
            if s.mem[('m', p.E, PAR)] == p.P:
                c.ok('O7', '%s <- %s' % (cname(C), d.tname[t]))
            else:
                f = d.db.functions[p.ip.lookup(C, 'AddElement', 1)]
                c.bad('O7', '%s <- %s' % (cname(C), d.tname[t]), where(f), 'a %s read into a %s does not get it as its parent' % (d.tname[t][5:], cname(C)))
    harness.parallel(chk, items, work)
