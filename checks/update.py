"""Merging and updating: a merge gives the target exactly what the source writes, an update touches exactly the objects
its operations target."""
from eng import *
import harness
from harness import guard
from ids import getter, report, Cl as BaseCl
import clone as clonemod

SRC, TGT = T('OBJ', 'SRC'), T('OBJ', 'TGT')
AMAP = 'kmlbase::Attributes::attributes_map_'
CHAR = 'kmldom::Element::char_data_'


class Cl(EngClient):
    script = None

    def __init__(self, d):
        super().__init__()
        self.d = d

    def call(self, ip, st, fr, f, this, args, node):
        n, cls = f['n'], f.get('cls', '')
        if cls == 'kmlbase::Attributes':
            if n == 'MergeAttributes':
                l = ('m', this, AMAP)
                st.mem[l] = T('merged', ip.load(st, l), ip.load(st, ('m', args[0], AMAP)))
                return [(st, VOID)]
        if this is not None and ip.is_sub(cls, ELEM):
            if n == 'Serialize' and f.get('virt') and len(args) == 1:
                st.trace = st.trace + (('Serialize', this),)
                if self.script is None or this != SRC:
                    return [(st, VOID)]
                return [(x, VOID) for x in self.play(ip, st, args[0])]
            if n == 'SerializeAttributes' and f.get('virt'):
                l = ('m', args[0], AMAP)
                st.mem[l] = T('merged', ip.load(st, l), T('attrs', this)) if ip.load(st, l) not in (models.EMPTYMAP, UNDEF) else T('attrs', this)
                return [(st, VOID)]
            if n == 'ParseAttributes':
                a = args[0]
                st.trace = st.trace + (('Attrs', this, ip.load(st, ('m', a, AMAP)) if a != ZERO else None),)
                return [(st, VOID)]
            if n == 'AddElement' and f.get('virt'):
                v = models.valarg(ip, st, f, 0, args)
                st.trace = st.trace + (('Add', this, v, st.mem.get(('m', v, CHAR)), st.mem.get(('mk', v))),)
                return [(st, VOID)]
            if n == 'AddUnknownElement':
                st.trace = st.trace + (('Unknown', this, models.valarg(ip, st, f, 0, args)),)
                return [(st, VOID)]
            if cls == 'kmldom::Coordinates' and n in ('Clear', 'add_vec3', 'add_latlng', 'add_latlngalt'):
                st.trace = st.trace + ((n, this) + self.vals(ip, st, f, args),)
                return [(st, VOID)]
            if n == 'Type' and this == TGT and f.get('virt'):
                return [(st, T('etype', TGT))]
        if cls == 'kmldom::KmlFactory' and n == 'CreateFieldById':
            e = ip.new_obj(st, 'kmldom::Field')
            st.mem[('mk', e)] = args[0]
            st.assume(mk_nz(e), True)
            return [(st, e)]
        return super().call(ip, st, fr, f, this, args, node)

    def play(self, ip, st, ser):
        cls = st.cls.get(ser)
        out = [st]
        for step in self.script:
            nx = []
            for s in out:
                nx += self.step(ip, s, ser, cls, step)
            out = nx
        return out

    def step(self, ip, s, ser, cls, step):
        v = lambda name, a: [x for x, _ in ip.call_virtual(s, name, cls, ser, a)]
        k = step[0]
        if k == 'B':
            a = T('OBJ', 'ATTR')
            s.cls[a] = 'kmlbase::Attributes'
            s.assume(mk_nz(a), True)
            s.mem[('m', a, AMAP)] = T('sattrs')
            return v('BeginById', [T('etype', SRC), a])
        if k == 'E':
            return v('End', [])
        if k == 'F':
            return v('SaveStringFieldById', [step[1], step[2]])
        if k == 'K':
            c = T('OBJ', 'COL')
            s.cls[c] = 'kmlbase::Color32'
            s.assume(mk_nz(c), True)
            s.mem[('m', c, 'kmlbase::Color32::color_abgr_')] = T('COLOR', 1)
            return v('SaveColor', [step[1], c])
        if k == 'C':
            return v('SaveContent', [('p', ip.tmp(s, step[1])), ONE])
        if k == 'S':
            c = T('OBJ', 'KID')
            s.cls[c] = ELEM
            s.assume(mk_nz(c), True)
            return v('SaveElement', [('p', ip.tmp(s, c))])
        if k == 'G':
            c = T('OBJ', 'KID')
            s.cls[c] = ELEM
            s.assume(mk_nz(c), True)
            return v('SaveElementGroup', [('p', ip.tmp(s, c)), T('group')])
        if k == 'V':
            c = T('OBJ', 'VEC%d' % step[1])
            s.cls[c] = 'kmlbase::Vec3'
            s.assume(mk_nz(c), True)
            return v('SaveVec3', [c])
        if k == 'U':
            out = []
            for x in v('BeginElementArray', [('c', self.d.tval['Type_Unknown']), ONE]):
                for y, _ in ip.call_virtual(x, 'Indent', cls, ser, []):
                    for z, _ in ip.call_virtual(y, 'SaveContent', cls, ser, [('p', ip.tmp(y, step[1])), ZERO]):
                        out += [w for w, _ in ip.call_virtual(z, 'EndElementArray', cls, ser, [('c', self.d.tval['Type_Unknown'])])]
            return out
        raise AnalysisBroken(k)


def merge_fields(chk, d):
    f = d.fn1('kmlengine::MergeFields')
    F1, F2 = ('F', T('ft1'), T('fv1')), ('F', T('ft2'), T('fv2'))
    K = ('K', T('ktype'))
    C = ('C', T('text'))
    U, U2 = ('U', T('xml')), ('U', T('xml2'))
    S, G = ('S',), ('G',)
    V = [('V', 0), ('V', 1)]
    bodies = [[], [F1], [F1, F2], [K], [C], [U], [S], [G], V, [F1, S, F2], [S, F1], [C, U], [U, U2], [F1, C, F2, U], [K, F1, G, S], [V[0]], [F1, F2, U, U2], [C, S, U]]

    for body in bodies:
        for coords in (True, False):
            for same in (True, False):
                if V[0] in body and not coords:
                    continue
                cl = Cl(d)
                cl.script = [('B',)] + body + [('E',)]
                ip = EInterp(d.db, cl)
                st = State()
                obj(st, 'SRC', ELEM)
                obj(st, 'TGT', 'kmldom::Coordinates' if coords else ELEM)
                st.mem[('exact', TGT)] = ONE
                st.assume(mk_eq(T('etype', SRC), T('etype', TGT)), same)
                st.assume(mk_nz(mk_size(T('text'))), True)
                rs = ip.run(f, None, [('p', ip.tmp(st, SRC)), TGT], st)
                key = 'MergeFields %s%s%s' % (' '.join(x[0] for x in body) or 'nothing', ' into coordinates' if coords else '', '' if same else ' other type')

                def expect(q, s):
                    if len([e for e in s.trace if e == ('Serialize', SRC)]) != 1:
                        return 'the source is not walked exactly once'
                    tr = [e for e in s.trace if e[0] != 'Serialize']
                    if any(e[1] != TGT for e in tr):
                        return 'something other than the target is changed'
                    at = [e for e in tr if e[0] == 'Attrs']
                    if [e[2] for e in at] != [T('merged', T('attrs', TGT), T('sattrs'))]:
                        return 'the attributes of the target do not become its own overlaid with the source\'s'
                    got = [(e[4], e[3]) for e in tr if e[0] == 'Add' and e[2] != TGT]
                    want = []
                    for x in body:
                        if x[0] == 'F':
                            want.append((x[1], x[2]))
                        if x[0] == 'K':
                            want.append((x[1], clonemod.simp_color(1)))
                    if got != want:
                        return 'fields set in the target: %s instead of %s' % (pp(tuple(got))[:100], pp(tuple(want))[:100])
                    un = [e[2] for e in tr if e[0] == 'Unknown']
                    if un != [x[1] for x in body if x[0] == 'U']:
                        return 'unknown XML of the source is not preserved in the target'
                    own = [e[3] for e in tr if e[0] == 'Add' and e[2] == TGT]
                    if own != ([T('text')] if C in body and same else []):
                        return 'the text of the source does not become the text of the target'
                    cs = [(e[0], clonemod.vec_id(e[2]) if len(e) > 2 else None) for e in tr if e[0] in ('Clear', 'add_vec3')]
                    wc = ([('Clear', None)] if coords else []) + [('add_vec3', 'VEC%d' % x[1]) for x in body if x[0] == 'V']
                    if cs != wc:
                        return 'coordinates are not replaced by the source\'s'
                    return None
                report(chk, 'U1', key, f, rs, expect)
    for a, b in ((ZERO, TGT), (SRC, ZERO), (SRC, SRC)):
        ip = EInterp(d.db, Cl(d))
        st = State()
        obj(st, 'SRC', ELEM)
        obj(st, 'TGT', ELEM)
        rs = ip.run(f, None, [('p', ip.tmp(st, a)), b], st)
        # merging an element with itself may also be done by writing the same values again; here it is skipped
        report(chk, 'U1', 'MergeFields %s %s' % (pp(a), pp(b)), f, rs, lambda q, s: None if not s.trace else 'something is changed')


def merge_elements(chk, d):
    f = d.fn1('kmlengine::MergeElements')
    KS = [T('OBJ', 'S%d' % i) for i in range(3)]
    KT = [T('OBJ', 'T%d' % i) for i in range(3)]

    class C2(Cl):
        def call(self, ip, st, fr, g, this, args, node):
            qn = g['qn']
            if qn == 'kmlengine::MergeElements':
                v = self.vals(ip, st, g, args)
                if v == (SRC, TGT) and not st.mem.get(('top',)):
                    st.mem[('top',)] = ONE
                    return None
                st.trace = st.trace + (('Merge',) + v,)
                return [(st, VOID)]
            if qn == 'kmlengine::MergeFields':
                st.trace = st.trace + (('Fields',) + self.vals(ip, st, g, args),)
                return [(st, VOID)]
            if qn == 'kmlengine::Clone':
                return [(st, T('clone', models.valarg(ip, st, g, 0, args)))]
            if qn == 'kmlengine::GetChildElements':
                e = models.valarg(ip, st, g, 0, args)
                if args[1] != ZERO:
                    raise AnalysisBroken('recursive child list')
                st.mem[ip.deref_loc(args[2])] = ('vec', tuple(KS[:self.ns] if e == SRC else KT[:self.nt]))
                return [(st, ('c', self.ns if e == SRC else self.nt))]
            if this is not None and g['n'] == 'AddElement' and ip.is_sub(g.get('cls', ''), ELEM):
                st.trace = st.trace + (('Add', this, models.valarg(ip, st, g, 0, args)),)
                return [(st, VOID)]
            return super().call(ip, st, fr, g, this, args, node)
    for ns in range(0, 3):
        for nt in range(0, 4):
            cl = C2(d)
            cl.ns, cl.nt = ns, nt
            ip = EInterp(d.db, cl)
            st = State()
            st.mem[('top',)] = ONE
            for o in [SRC, TGT] + KS + KT:
                obj(st, o[2], ELEM)
            rs = ip.run(f, None, [('p', ip.tmp(st, SRC)), TGT], st)

            def expect(q, s):
                want = []
                for a in KS[:ns]:
                    for b in KT[:nt]:
                        if q.eq(T('etype', a), T('etype', b)):
                            want.append(('Merge', a, b))
                            break
                    else:
                        want.append(('Add', TGT, T('clone', a)))
                got = [e for e in s.trace if e[0] in ('Merge', 'Add')]
                if got != want:
                    return 'children of the source: %s instead of %s' % (pp(tuple(got))[:100], pp(tuple(want))[:100])
                if [e for e in s.trace if e[0] == 'Fields'] != [('Fields', SRC, TGT)]:
                    return 'the fields of the source are not merged exactly once'
                return None
            report(chk, 'U2', 'MergeElements %d into %d children' % (ns, nt), f, rs, expect)
    for a, b in ((ZERO, TGT), (SRC, ZERO)):
        cl = C2(d)
        cl.ns = cl.nt = 1
        ip = EInterp(d.db, cl)
        st = State()
        st.mem[('top',)] = ONE
        for o in [SRC, TGT] + KS + KT:
            obj(st, o[2], ELEM)
        rs = ip.run(f, None, [('p', ip.tmp(st, a)), b], st)
        report(chk, 'U2', 'MergeElements %s %s' % (pp(a), pp(b)), f, rs, lambda q, s: None if not s.trace else 'something is changed')


def vec_field(ip, cls, elem):
    c = [fl[0] for fl in ip.all_fields(cls) if 'vector<' in ip.ty(fl[1]['t']).get('n', '') and elem + '>' in ip.ty(fl[1]['t']).get('n', '')]
    if len(c) != 1:
        raise AnalysisBroken('%s: array of %s not found' % (cls, elem))
    return c[0]


class UCl(Cl):
    def call(self, ip, st, fr, g, this, args, node):
        qn = g['qn']
        if qn == 'kmlengine::MergeElements' or qn == 'kmlengine::MergeFields':
            st.trace = st.trace + (((g['n']),) + self.vals(ip, st, g, args),)
            return [(st, VOID)]
        if qn == 'kmlengine::Clone':
            return [(st, T('clone', models.valarg(ip, st, g, 0, args)))]
        if qn == 'kmlengine::KmlFile::GetObjectById':
            k = models.valarg(ip, st, g, 0, args)
            return [(st, T('byid', k))]
        if this is not None and g['n'] == 'GetParent' and not args:
            return [(st, T('parent', this))]
        if this is not None and g['n'] in ('clear_targetid', 'clear_feature'):
            st.trace = st.trace + ((g['n'], this),)
            return [(st, VOID)]
        if this is not None and g['n'] in ('add_feature', 'DeleteFeatureById', 'AddElement', 'set_id', 'set_targetid', 'clear_id', 'DeleteFeatureAt', 'set_feature') and ip.is_sub(g.get('cls', ''), ELEM):
            v = self.vals(ip, st, g, args)
            st.trace = st.trace + ((g['n'], this) + v,)
            return [(st, T('ret', g['n'], this, *v))]
        return super().call(ip, st, fr, g, this, args, node)

    def cast(self, ip, st, fr, v, c, node):
        if v[:2] == ('t', 'clone') and c != ELEM:
            # a clone is of the class of its source
            k = st.cls.get(v[2])
            if k and ip.is_sub(k, c):
                return [(st, v)]
        return super().cast(ip, st, fr, v, c, node)


def update(chk, d):
    UP = 'kmldom::Update'
    ipx = EInterp(d.db, Cl(d))
    ops_f = vec_field(ipx, UP, 'kmldom::UpdateOperation')
    arr = {'kmldom::Change': vec_field(ipx, 'kmldom::Change', 'kmldom::Object'),
           'kmldom::Create': vec_field(ipx, 'kmldom::Create', 'kmldom::Container'),
           'kmldom::Delete': vec_field(ipx, 'kmldom::Delete', 'kmldom::Feature')}
    elc = {'kmldom::Change': 'kmldom::Object', 'kmldom::Create': 'kmldom::Container', 'kmldom::Delete': 'kmldom::Feature'}
    feats = vec_field(ipx, 'kmldom::Container', 'kmldom::Feature')
    f1 = d.fn1('kmlengine::ProcessUpdate')
    f2 = d.fn1('kmlengine::ProcessUpdateWithIdMap')
    Ch, Cr, De = arr
    combos = [[], [(Ch, 1)], [(Cr, 1)], [(De, 1)], [(Ch, 2)], [(De, 2)], [(Ch, 1), (De, 1)], [(Cr, 1), (Ch, 1)], [(De, 1), (Cr, 1)], [(Cr, 2)], [(Ch, 0), (De, 1)]]
    items = [(c, m) for c in combos for m in ('no map', 'null map', 'map')]

    def work(c, item):
        combo, mode = item
        ip = EInterp(d.db, UCl(d))
        st = State()
        U = obj(st, 'UPDATE', UP)
        KF = obj(st, 'FILE', 'kmlengine::KmlFile')
        ops, objs = [], []
        for i, (k, n) in enumerate(combo):
            o = obj(st, 'OP%d' % i, k)
            st.mem[('exact', o)] = ONE
            xs = []
            for j in range(n):
                x = obj(st, 'X%d%d' % (i, j), elc[k])
                fs = []
                if k == Cr:
                    for m in range(2 - j):
                        fe = obj(st, 'F%d%d%d' % (i, j, m), 'kmldom::Feature')
                        fs.append(fe)
                    st.mem[('m', x, feats)] = ('vec', tuple(fs))
                objs.append((k, x, fs))
                xs.append(x)
            st.mem[('m', o, arr[k])] = ('vec', tuple(xs))
            ops.append(o)
        st.mem[('m', U, ops_f)] = ('vec', tuple(ops))
        G = ip.tmp(st, T('G'))
        f = f1 if mode == 'no map' else f2
        args = [('p', ip.tmp(st, U))] + ([] if mode == 'no map' else [ZERO] if mode == 'null map' else [('p', G)]) + [KF]
        pre = st.copy()
        rs = ip.run(f, None, args, st)
        key = '%s; %s' % (', '.join('%s of %d' % (k.split('::')[-1], n) for k, n in combo) or 'no operation', mode)

        def expect(q, s):
            want = []
            for k, x, fs in objs:
                if not q(mk_nz(getter(ip, pre, 'kmldom::Object', 'has_targetid', x))):
                    continue
                t = getter(ip, pre, 'kmldom::Object', 'get_targetid', x)
                if mode == 'map':
                    if not q.mem(T('G'), t):
                        continue
                    t = q.val(T('G'), t)
                o = T('byid', t)
                if q.null(o):
                    continue
                if k == Ch:
                    want += [('MergeElements', x, o), ('clear_targetid', o)]
                elif k == Cr:
                    if q.isa(o, 'kmldom::Container'):
                        want += [('add_feature', o, T('clone', y)) for y in fs]
                elif k == De:
                    if q.isa(o, 'kmldom::Feature'):
                        p = T('parent', o)
                        if q.null(p):
                            continue
                        if q.isa(p, 'kmldom::Container'):
                            want.append(('DeleteFeatureById', p, t))
                        elif q.isa(p, 'kmldom::Kml'):
                            want.append(('clear_feature', p))
            got = [e for e in s.trace]
            if got != want:
                return 'the update does %s instead of %s' % (pp(tuple(got))[:200] or 'nothing', pp(tuple(want))[:200])
            return None
        report(c, 'U3', key, f, rs, expect)
    harness.parallel(chk, items, work)
    for f in (f1, f2):
        for a in (0, 1):
            ip = EInterp(d.db, UCl(d))
            st = State()
            U = obj(st, 'UPDATE', UP)
            KF = obj(st, 'FILE', 'kmlengine::KmlFile')
            args = [('p', ip.tmp(st, ZERO if a == 0 else U))] + ([] if f is f1 else [ZERO]) + [KF if a == 0 else ZERO]
            rs = ip.run(f, None, args, st)
            report(chk, 'U3', '%s without %s' % (f['n'], 'update' if a == 0 else 'file'), f, rs, lambda q, s: None if not s.trace else 'something is changed')


def delete_by_id(chk, d):
    C = 'kmldom::Container'
    f = d.fn1(C + '::DeleteFeatureById')
    ipx = EInterp(d.db, EngClient())
    feats = vec_field(ipx, C, 'kmldom::Feature')
    for n in range(0, 4):
        ip = EInterp(d.db, EngClient())
        st = State()
        P = obj(st, 'P', C)
        X = [obj(st, 'X%d' % i, 'kmldom::Feature') for i in range(n)]
        st.mem[('m', P, feats)] = ('vec', tuple(X))
        pre = st.copy()
        rs = ip.run(f, P, [('p', ip.tmp(st, T('id')))], st)

        def expect(q, s):
            v = s.mem[('ret',)]
            now = s.mem[('m', P, feats)]
            for i, x in enumerate(X):
                if q(mk_nz(getter(ip, pre, 'kmldom::Object', 'has_id', x))) and q.eq(T('id'), getter(ip, pre, 'kmldom::Object', 'get_id', x)):
                    if v != x:
                        return 'the feature with the id is not returned'
                    return None if now == ('vec', tuple(X[:i] + X[i + 1:])) else 'not exactly the feature with the id is removed'
            if v != ZERO:
                return 'a feature is returned for an id no feature has'
            return None if now == ('vec', tuple(X)) else 'features are removed for an id no feature has'
        report(chk, 'U4', 'DeleteFeatureById of %d' % n, f, rs, expect)


def run(chk, db):
    d = Dom(db)
    d.classes()
    chk.rule('U1', 'merging fields overlays the attributes, sets every field, text, colour and unknown content the source writes in the target, replaces coordinates and touches no child element')
    chk.rule('U2', 'merging elements merges every child of the source into the target\'s first child of its type, or adds a clone, in order, and the fields once')
    chk.rule('U3', 'an update processes its operations in order, each against the object its target id names after mapping, and changes nothing else')
    chk.rule('U4', 'deleting by id removes exactly the first feature with the id')
    for g in (merge_fields, merge_elements, update, delete_by_id):
        guard(chk, g.__name__, g, chk, d)
    return {}
