"""Child elements: whatever AddElement takes in, Serialize gives back.

For every element class C and every KML element type T: an element P of class C in an arbitrary
(unknown) state receives a child of type T through the code of C::AddElement; then the code of
C::Serialize runs against an abstract sink.  Both are interpreted abstractly over the program
database, all paths, with every other field of P unknown."""
import json
import os
from rt import *
import harness

SPEC = os.path.join(harness.VERIF, 'spec', 'children.json')
# elements whose value is their own character data: the handler hands them to themselves
SELF_TEXT = {'kmldom::Coordinates', 'kmldom::Snippet', 'kmldom::LinkSnippet', 'kmldom::SimpleData'}
LISTS = {('kmldom::ItemIcon', 'Type_state')}     # list-valued character data, rule R4


def short(t):
    if not isinstance(t, tuple):
        return str(t)
    if t and t[0] == 't' and t[1] == 'init' and t[2][0] == 'm':
        return t[2][2].split('::')[-1]
    if t and t[0] == 'c':
        return str(t[1])
    if t and t[0] == 't':
        return '%s(%s)' % (t[1], ','.join(short(x) for x in t[2:] if not (isinstance(x, tuple) and x and x[0] == 'L')))
    return str(t)[:60]


def conds(s, P):
    out = []
    for k, v in s.facts.items():
        if k[1] == 'nz' and k[2] == P:
            continue
        if 'unknown_legal_elements_array_' in str(k) or 'unknown_elements_array_' in str(k):
            continue
        out.append(('' if v else 'not ') + short(k))
    return ' & '.join(out)[:500] or 'always'


def where_of(d, C, m):
    ip = Interp(d.db, DomClient())
    mid = ip.lookup(C, m)
    f = d.db.functions.get(mid) if mid else None
    return '%s:%s %s' % (f['file'], f.get('line', f.get('l', '?')), f['qn']) if f else C


def enum_rejected(s):
    return any(v and k[1] == 'eq' and ('c', -1) in k[2:] and mentions(k, lambda y: y == CD) and
               mentions(k, lambda y: len(y) > 1 and y[1] == 'enumid') for k, v in s.facts.items())


def enum_empty(x):
    return x.decide(mk_nz(mk_size(CD))) is False and any(
        k[1] == 'eq' and v is False and ('c', -1) in k[2:] and mentions(k, lambda y: len(y) > 1 and y[1] == 'enumid')
        for k, v in x.facts.items())


def value_kind(v):
    """how an emitted field value is derived from the character data -> (kind, error)"""
    if v == CD:
        return 'string', None
    if v[0] == 't' and v[1] == 'tostr' and v[3][0] == 't' and v[3][1] == 'parse' and v[3][3] == CD:
        if v[2] == v[3][2]:
            return v[2], None
        return None, 'parsed as %s but written as %s' % (v[3][2], v[2])
    if v[0] == 't' and v[1] == 'tostr':
        return None, 'written as %s from %s' % (v[2], short(v[3]))
    return None, 'the character data is altered: %s' % short(v)


def cdata_path(x):
    return any(mentions(k, lambda y: y == ('s', '<![CDATA[')) for k, v in x.facts.items())


def judge(x, tr, p, t):
    """-> (kind or None, error or None)"""
    if not tr:
        return None, 'what was stored is not written back'
    if len(tr) == 1 and tr[0][0] == 'Emit' and tr[0][1] == p.E:
        return 'element', None
    if len(tr) == 1 and tr[0][0] == 'Field' and not vecs_in(tr):
        ty, v = tr[0][1], tr[0][2]
        if ty != ('c', t):
            return None, 'written under a different element name (type %s)' % short(ty)
        k, err = value_kind(v)
        if k == 'string' and any(mentions(f, lambda y: len(y) > 1 and y[1] == 'enumid') for f in x.facts):
            k = 'enum'
        if err and cdata_path(x) and v[1] == 'substr':
            return 'string', None
        return k, err
    for V in vecs_in(tr):
        ok, shape = cover(x, tr, V)
        if ok is None:
            return 'undecided', None
        if not ok:
            return None, 'not every stored child is written back exactly once in order'
        if shape == ('Emit', ('HOLE',)):
            return 'elements', None
        if shape[0] == 'Field' and shape[1] == ('c', t):
            if shape[2] == ('HOLE',):
                return 'strings', None
            return None, 'the stored text is altered: %s' % short(shape[2])
        if shape[0] == 'SaveSimpleVec3' and shape[1] == ('c', t) and shape[2] in (('HOLE',), ('t', 'deref', ('HOLE',))):
            return 'vec3', None
        return None, 'written as %s' % (shape[:2],)
    if len(tr) > 1 and all(e[0] in ('Emit', 'Field') for e in tr):
        return None, 'written %d times' % len(tr)
    return 'undecided', None


def run_pair(chk, d, C, n, t, spec, got, seen):
    key = '%s <- %s' % (C.split('::')[-1], n[5:])
    p = Pair(d, C, t)
    wadd = where_of(d, C, 'AddElement')
    want_kind = spec.get(C, {}).get(n) if spec is not None else None
    if C in SELF_TEXT:
        want_kind = None
    kinds = set()
    try:
        outs = p.add()
        for s in outs:
            init = T('init', ('m', p.P, MIS))
            mis = s.mem.get(('m', p.P, MIS)) == T('vapp', init, p.E)
            hit = lambda y: y == p.E or y == CD
            stored = False
            vecx = None
            for k, v in s.mem.items():
                if k[0] not in ('m', 'e') or not isinstance(k[1], tuple):
                    continue
                if k[0] == 'm' and k[1] == p.P:
                    if k[2] in (MIS, XF):
                        continue
                    if mentions(v, hit):
                        stored = True
                    elif v[0] == 't' and v[1] == 'vapp' and v[2] == T('init', k):
                        vecx = v
                elif k[1][0] == 'p' and mentions(k[1], lambda y: y == p.P) and mentions(v, hit):
                    stored = True
            if mis and stored:
                chk.bad('R1', key, wadd, 'the child is both stored and kept as misplaced, so it is written twice')
                return
            if not mis and not stored and vecx is None:
                if enum_rejected(s):
                    continue
                if (C, n) in LISTS:
                    continue
                chk.bad('R1', key, wadd, 'the child is neither stored nor kept as misplaced: it is lost when %s' % conds(s, p.P))
                return
            if vecx is not None and not stored:
                hit = lambda y: y == vecx
            if mis:
                # the outcome depends on the state of P only: analyse each distinct state once
                ck = (frozenset((k, v) for k, v in s.mem.items() if k[0] in ('m', 'e') and mentions(k, lambda y: y == p.P)),
                      frozenset(s.facts.items()))
                if ck in seen:
                    kinds.add('misplaced')
                    continue
            rs = p.serialize(s, lambda ev: ev[0] not in NOISE and mentions(ev, hit))
            for x in rs:
                if not x.trace and enum_empty(x):
                    continue
                k, err = judge(x, x.trace, p, t)
                if err:
                    chk.bad('R1', key, where_of(d, C, 'Serialize'), '%s when %s' % (err, conds(x, p.P)))
                    return
                if k == 'undecided':
                    chk.unk('R1', key, 'emission shape not understood: %s' % (x.trace,))
                    return
                kinds.add('misplaced' if mis else k)
            if mis:
                seen.add(ck)
    except Budget as e:
        chk.unk('R1', key, e)
        return
    chk.ok('R1', key)
    if C not in SELF_TEXT and kinds - {'misplaced'}:
        got.setdefault(C, {})[n] = '|'.join(sorted(kinds))
    if want_kind is not None:
        k = '|'.join(sorted(kinds))
        if (C, n) in LISTS or k == want_kind:
            chk.ok('R2', key)
        elif 'misplaced' in kinds:
            chk.bad('R2', key, wadd, 'the child is not recognised (kept as misplaced): its typed accessor never sees it')
        else:
            chk.bad('R2', key, wadd, 'the value is handled as %s instead of %s' % (k, want_kind))


def run_text(chk, d, C):
    """elements that carry their own character data"""
    key = C.split('::')[-1]
    try:
        cl = DomClient()
        ip = Interp(d.db, cl)
        st = State()
        P = d.unknown_object(st, 'P', C)
        cl.roots = (P,)
        st.mem[('m', P, 'kmldom::Element::char_data_')] = CD
        st.mem[('m', P, XF)] = ZERO
        cl.want = lambda ev: False
        if C == 'kmldom::Coordinates':
            V = T('init', ('m', P, 'kmldom::Coordinates::coordinates_array_'))
            cl.want = lambda ev: ev[0] not in NOISE and mentions(ev, lambda y: y == V)
            for x, _ in ip.call_virtual(st, 'Serialize', C, P, [S]):
                ok, shape = cover(x, x.trace, V) if mk_size(V) else (False, None)
                if ok is None:
                    chk.unk('R3', key, x.trace)
                    return
                if not ok and x.decide(mk_eq(mk_size(V), ZERO)) is True and not x.trace:
                    continue
                if not ok or shape[0] != 'SaveVec3':
                    chk.bad('R3', key, where_of(d, C, 'Serialize'), 'not every coordinate is written exactly once in order')
                    return
            chk.ok('R3', key)
            return
        loc = ip.tmp(st, P)
        for s, _ in ip.call_virtual(st, 'AddElement', C, P, [('p', loc)]):
            cl.want = lambda ev: mentions(ev, lambda y: y == CD)
            s.trace = ()
            for x, _ in ip.call_virtual(s, 'Serialize', C, P, [S]):
                if x.trace != (('SaveContent', CD, ONE),):
                    chk.bad('R3', key, where_of(d, C, 'AddElement'), 'the element\'s own text is written as %s when %s' % (x.trace, conds(x, P)))
                    return
        chk.ok('R3', key)
    except Budget as e:
        chk.unk('R3', key, e)


def run(chk, db, gen=False):
    d = Dom(db)
    classes = d.concrete_classes()
    spec = json.load(open(SPEC)) if not gen else None
    chk.rule('R1', 'for every element class C and element type T: C::AddElement(child of type T) stores the child or '
                   'files it as misplaced (exactly one of the two), and C::Serialize then writes it exactly once under the '
                   'same element name, on every path and for every state of the other fields; the only child that may '
                   'be discarded is an enumeration field whose text is not in the enumeration')
    chk.rule('R2', 'every child of the KML content model (spec/children.json) is stored under its type: '
                   'bool/int/double/string/enum/color/element')
    chk.rule('R3', 'text elements hand back their own character data')

    def work(c, C):
        got = {}
        seen = set()
        for n, t in d.types:
            run_pair(c, d, C, n, t, spec, got, seen)
        if C in SELF_TEXT:
            run_text(c, d, C)
        if gen:
            c.notes['got ' + C] = got.get(C, {})
        c.notes['accepted_pairs'] = c.notes.get('accepted_pairs', 0) + len(got.get(C, {}))
    harness.parallel(chk, classes, work)
    if spec is not None:
        for C in spec:
            if C not in classes:
                for n in spec[C]:
                    chk.bad('R2', '%s <- %s' % (C, n), 'dom/kml_factory.cc', 'no factory product of class %s' % C)
    if gen:
        out = {}
        for k in list(chk.notes):
            if k.startswith('got '):
                v = chk.notes.pop(k)
                if v:
                    out[k[4:]] = dict(sorted(v.items()))
        json.dump(out, open(SPEC, 'w'), indent=0, sort_keys=True)
    return dict(classes=len(classes), element_types=len(d.types), pairs=len(classes) * len(d.types))
