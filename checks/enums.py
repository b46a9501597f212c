"""Enumerated values: the text table and the C++ enumeration of every enumerated field agree."""
import json
import os
from rt import *
import harness
from children import short
from typeid import Cl, xsd_object, where, single
from accessors import A, props, VAL
from attributes import AttrClient, OUT

SPEC = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'spec', 'enums.json')


def relations(d):
    """(schema type, C++ enumeration) pairs met when enumerated fields are written, with the setters"""
    rel = {}

    def note(evs, C, x):
        for y in subterms(evs):
            if isinstance(y, tuple) and len(y) == 4 and y[:2] == ('t', 'enumstr') and mentions(y[3], lambda z: z == VAL):
                rel.setdefault(y[2], set()).add('%s::%s' % (C.split('::')[-1], x))
    return rel, note


def run(chk, db):
    d = Dom(db)
    chk.rule('E1', 'every value of the enumeration of a field has exactly one text in the schema table, that of the KML standard (spec/enums.json)')
    chk.rule('E2', 'looking up that text gives that value back; distinct values have distinct texts')
    chk.rule('E3', 'text that is not in the list (unknown, empty, different case) gives -1; a value that is not in the '
                   'enumeration (negative, too large) gives no text, without reading outside the list')
    chk.rule('E4', 'every enumerated field of an element is written and read through the list of its own enumeration')
    xsd = xsd_object(d)
    if xsd is None:
        chk.unk('E1', 'Xsd::Xsd', 'constructor not a single path')
        return dict(classes=0)
    ip = Interp(db, Cl(xsd))
    f_val, f_id = d.fn1('kmldom::Xsd::EnumValue'), d.fn1('kmldom::Xsd::EnumId')
    spec = json.load(open(SPEC))

    def xrun(f, args):
        st = State()
        for k, v in xsd[1].items():
            st.mem[k] = v
        st.cls[xsd[0]] = 'kmldom::Xsd'
        st.assume(mk_nz(xsd[0]), True)
        a = [('p', ip.tmp(st, x)) if ip.ty(p['t']).get('ref') else x for p, x in zip(f['params'], args)]
        return single(ip.run(f, xsd[0], a, st))
    n_enum = 0
    for tname, sp in sorted(spec.items()):
        t = d.tval.get(tname)
        en = db.enums.get('kmldom::' + sp['enum'])
        if t is None or en is None:
            chk.unk('E1', tname, 'type or enumeration %s no longer declared' % sp['enum'])
            continue
        vals = {n: v for n, v in en['e']}
        texts = {}
        n_enum += 1
        for n, v in en['e']:
            r = xrun(f_val, [('c', t), ('c', v)])
            key = '%s %s' % (tname, n)
            if r is None or r[0] != 's' or not r[1]:
                chk.bad('E1', key, where(f_val), 'the value %s of %s has no text (%s)' % (n, sp['enum'], short(r) if r else '?'))
                continue
            want = sp['values'].get(n)
            if want is not None and want != r[1]:
                chk.bad('E1', key, where(f_val), 'the value %s is written as "%s", the standard says "%s"' % (n, r[1], want))
                continue
            chk.ok('E1', key)
            if r[1] in texts:
                chk.bad('E2', key, where(f_val), 'the text "%s" stands for both %s and %s' % (r[1], n, texts[r[1]]))
            texts[r[1]] = n
            back = xrun(f_id, [('c', t), r])
            if back == ('c', v):
                chk.ok('E2', key)
            else:
                chk.bad('E2', key, where(f_id), 'the text "%s" of %s is read as %s' % (r[1], n, short(back) if back else '?'))
        for n, w in sp['values'].items():
            if n not in vals:
                chk.bad('E1', '%s %s' % (tname, n), where(f_val), 'the standard value %s ("%s") is gone' % (n, w))
        for txt in ['', 'noSuchValue', '-1', '0'] + [x.upper() for x in texts] + [x + ' ' for x in texts] + [x[:-1] for x in texts]:
            if txt in texts:
                continue
            r = xrun(f_id, [('c', t), ('s', txt)])
            if r == ('c', -1):
                chk.ok('E3')
            else:
                chk.bad('E3', '%s text %s' % (tname, txt), where(f_id), 'the text "%s", not a value of %s, is read as %s' % (txt, sp['enum'], short(r) if r else '?'))
        hi = max(vals.values())
        for v in [-1, -2, -2 ** 31, hi + 1, hi + 2, hi + 10, 1000, 2 ** 31 - 1]:
            r = xrun(f_val, [('c', t), ('c', v)])
            if r == ('s', ''):
                chk.ok('E3')
            else:
                chk.bad('E3', '%s value %s' % (tname, 'negative' if v < 0 else 'too large'), where(f_val),
                        'the value %d, not in %s, gives %s' % (v, sp['enum'], short(r) if r else 'an unknown text'))
    notenum = d.tval.get('Type_name')
    for tv in [notenum, -1, 0, 10 ** 6]:
        if xrun(f_val, [('c', tv), ZERO]) == ('s', '') and xrun(f_id, [('c', tv), ('s', 'absolute')]) == ('c', -1):
            chk.ok('E3')
        else:
            chk.bad('E3', 'no enumeration', where(f_val), 'the type %s is not enumerated but has enumeration values' % d.tname.get(tv, tv))

    # E4: which list each enumerated accessor uses
    bytype = {}
    for tname, sp in spec.items():
        if tname in d.tval:
            bytype[('c', d.tval[tname])] = sp['enum']
    fenum = {k: v for k, v in json.load(open(os.path.join(os.path.dirname(SPEC), 'enum_fields.json'))).items()}

    def work(c, C):
        cname = C.split('::')[-1]
        for x, r in sorted(props(db, C).items()):
            su = r.get('set') or r.get('add')
            if not su or not su['params']:
                continue
            pt = ip.ty(su['params'][-1]['t'])
            if not (pt.get('k') == 'enum' or strip_type(pt.get('n', '')) == 'int'):
                continue
            a = A(d, C)
            a.cl = AttrClient()
            a.cl.want = lambda ev: False
            a.ip = Interp(db, a.cl)
            st = a.unknown()
            st.cls[OUT] = 'kmlbase::Attributes'
            st.assume(mk_nz(OUT), True)
            a.this = P = a.P
            a.cl.roots = (P,)
            arg, val, kind = a.arg(st, su)
            lists = set()
            for s, _ in a.call(st, su, [arg]):
                a.cl.want = lambda ev: mentions(ev, lambda y: y == val)
                for name, args in (('Serialize', [S]), ('SerializeAttributes', [OUT])):
                    q = s.copy()
                    q.trace = ()
                    for z, _ in a.ip.call_virtual(q, name, C, P, args):
                        for y in subterms(z.trace):
                            if isinstance(y, tuple) and len(y) == 4 and y[:2] == ('t', 'enumstr') and mentions(y[3], lambda w: w == val):
                                lists.add(y[2])
            key = '%s::%s' % (cname, x)
            if GEN is not None:
                if lists:
                    c.notes.setdefault('gen', {})[key] = sorted(d.tname[l[1]] for l in lists)
                continue
            want = fenum.get(key)
            if want is None:
                if lists:
                    c.ok('E4', key + ' (new)')
                continue
            got = sorted(d.tname.get(l[1], '?') if l[0] == 'c' else '?' for l in lists)
            if got == want:
                c.ok('E4', key)
            elif not got:
                c.unk('E4', key, 'no write of the value found')
            else:
                c.bad('E4', key, where(su), 'the enumerated field %s is written through the list of %s, it is of %s' % (key, got, want))
    if GEN is None:
        harness.parallel(chk, d.concrete_classes(), work)
    else:
        for C in d.concrete_classes():
            work(chk, C)
    return dict(enumerations=n_enum)


GEN = None
