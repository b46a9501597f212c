"""Identity: the id and style indexes of a file hold exactly the objects that carry an id, lookups answer from them, and
creation hands out a file only when its content was read whole.  Each updating step is analysed from an index of unknown
content, which makes the argument inductive over documents of any size."""
from eng import *
import harness
from harness import guard

ROOT, CH = T('OBJ', 'ROOT'), T('OBJ', 'CH')
OBJC = 'kmldom::Object'


def short_of(f):
    return f['n']


def getter(ip, s, cls, name, o):
    """value of a plain getter of an object in a state"""
    fid = ip.lookup(cls, name, 0)
    if fid is None:
        raise AnalysisBroken('no %s::%s' % (cls, name))
    rs = ip.run(ip.db.functions[fid], o, [], s.copy())
    if len(rs) != 1:
        raise AnalysisBroken('%s::%s is not a plain getter' % (cls, name))
    v = rs[0][1]
    if v[0] == 'p':
        v = ip.load(rs[0][0], v[1])
    return v


class Cl(EngClient):
    """Serialize of an element of unknown content is recorded; for the root, one arbitrary child is presented in between"""
    present = None      # how the child is presented
    havoc = None        # forgets what was collected so far

    def call3(self, ip, st, fr, f, this, args, node):
        if f['n'] == 'Serialize' and this is not None and ip.is_sub(f.get('cls', ''), ELEM) and f.get('virt') and len(args) == 1:
            st.trace = st.trace + (('Serialize', this, args[0]),)
            if this == ROOT and self.present:
                return self.play(ip, st, fr, args[0])
            return [(st, VOID)]
        if f['n'] == 'get_xmlns' and this is not None and ip.is_sub(f.get('cls', ''), ELEM):
            return [(st, T('xmlns', this))]
        return self.call4(ip, st, fr, f, this, args, node)

    def call4(self, ip, st, fr, f, this, args, node):
        return None

    def play(self, ip, st, fr, ser):
        cls = st.cls.get(ser)
        if cls is None:
            raise AnalysisBroken('serializer of unknown class')
        if self.havoc:
            self.havoc(ip, st)
        st.mem[('at_child',)] = ONE
        out = []
        how = self.present
        loc = ('p', ip.tmp(st, CH))
        if how == 'SaveElement':
            r = ip.call_virtual(st, 'SaveElement', cls, ser, [loc])
        elif how == 'SaveElementGroup':
            r = ip.call_virtual(st, 'SaveElementGroup', cls, ser, [loc, T('group')])
        elif how == 'Begin':
            a = T('OBJ', 'ATTR')
            st.cls[a] = 'kmlbase::Attributes'
            st.assume(mk_nz(a), True)
            r = ip.call_virtual(st, 'BeginById', cls, ser, [T('type'), a])
        elif how == 'End':
            r = ip.call_virtual(st, 'End', cls, ser, [])
        elif how == 'Field':
            r = ip.call_virtual(st, 'SaveStringFieldById', cls, ser, [T('type'), T('value')])
        elif how == 'Content':
            r = ip.call_virtual(st, 'SaveContent', cls, ser, [('p', ip.tmp(st, T('text'))), ONE])
        elif how == 'Array':
            r = []
            for x, _ in ip.call_virtual(st, 'BeginElementArray', cls, ser, [T('type'), ONE]):
                r += ip.call_virtual(x, 'EndElementArray', cls, ser, [T('type')])
        return [(x, VOID) for x, _ in r]


HOWS = ['SaveElement', 'SaveElementGroup', 'Begin', 'End', 'Field', 'Content', 'Array']


def observers_of(ip, s):
    return s.mem.get(('observers',), ())


def vec_loc(ip, st, val):
    l = ip.tmp(st, val)
    return l


def put(m, k, v):
    return T('mapset', m, k, v)


def same_map(q, a, b):
    """equal maps of the form base + updates"""
    return norm_map(q, a) == norm_map(q, b)


def norm_map(q, m):
    seen = []
    while m[0] == 't' and m[1] in ('mapset', 'mapdel'):
        if not any(q.eq(m[3], k[1]) for k in seen):
            seen.append((m[1], m[3], m[4] if m[1] == 'mapset' else None))
        m = m[2]
    return m, tuple(sorted(seen, key=str))


def is_object(q, e):
    return q.isa(e, OBJC)


def mapids(chk, d):
    f = d.fn1('kmlengine::MapIds')
    for how in HOWS:
        for dup in (True, False):
            cl = Cl()
            cl.present = how
            ip = EInterp(d.db, cl)
            st = State()
            for o in (ROOT, CH):
                obj(st, o[2], ELEM)
            ml, vl = ip.tmp(st, T('M0')), ip.tmp(st, T('D0'))

            def havoc(ip, s):
                s.mem[('root',)] = ('c', 1)
                s.mem[('rootmap',)] = ip.load(s, ml)
                s.mem[('rootdup',)] = ip.load(s, vl)
                s.mem[ml] = T('M1')
                s.mem[vl] = T('D1')
            cl.havoc = havoc
            key = 'MapIds %s%s' % (how, '' if dup else ' no duplicates wanted')

            def step(q, s, e, m0, d0, m1, d1):
                if is_object(q, e) and q(mk_nz(getter(ip, s, OBJC, 'has_id', e))):
                    k = getter(ip, s, OBJC, 'get_id', e)
                    if not same_map(q, m1, put(m0, k, e)):
                        return 'an object with an id is not put into the map under its id (%s)' % pp(m1)[:80]
                    was = q.mem(m0, k)
                    want = T('vapp', d0, q.val(m0, k)) if was and dup else d0
                    if d1 != want:
                        return 'the object whose id is taken over is not reported as duplicate exactly then (%s)' % pp(d1)[:80]
                else:
                    if m1 != m0 or d1 != d0:
                        return 'an element without an id changes the map or the duplicates'
                return None

            def expect(q, s):
                if s.mem.get(('root',)) is None:
                    return 'the hierarchy below the root is not walked'
                r = step(q, s, ROOT, T('M0'), T('D0'), s.mem[('rootmap',)], s.mem[('rootdup',)])
                if r:
                    return 'root: ' + r
                sers = [e for e in s.trace if e[0] == 'Serialize']
                if how in ('SaveElement', 'SaveElementGroup'):
                    if [e[1] for e in sers] != [ROOT, CH] or sers[0][2] != sers[1][2]:
                        return 'the children of an element are not walked exactly once'
                    return step(q, s, CH, T('M1'), T('D1'), s.mem[ml], s.mem[vl])
                if s.mem[ml] != T('M1') or s.mem[vl] != T('D1') or len(sers) != 1:
                    return 'something other than an element changes the map'
                return None
            rs = ip.run(f, None, [('p', ip.tmp(st, ROOT)), ('p', ml), ('p', vl) if dup else ZERO], st)
            report(chk, 'I2', key, f, rs, expect)
    for a in range(2):
        ip = EInterp(d.db, Cl())
        st = State()
        obj(st, 'ROOT', ELEM)
        ml = ip.tmp(st, T('M0'))
        rs = ip.run(f, None, [('p', ip.tmp(st, ZERO if a == 0 else ROOT)), ('p', ml) if a == 0 else ZERO, ZERO], st)
        report(chk, 'I2', 'MapIds without %s' % ('root' if a == 0 else 'map'), f, rs, lambda q, s: None if not s.trace and s.mem[ml] == T('M0') else 'something is done')


def report(chk, rule, key, f, rs, expect):
    if not rs:
        chk.unk(rule, key, 'no path')
        return
    for s, v in rs:
        s.mem[('ret',)] = v
        r = judge(s, expect)
        if r and r.endswith(' unknown'):
            chk.unk(rule, key, r)
        elif r:
            chk.bad(rule, key, where(f), r)
        else:
            chk.ok(rule, key)


def observers(chk, d):
    """every observer that KmlFile installs: what it does for an arbitrary element and pair of elements"""
    items = [('kmlengine::ObjectIdParserObserver', 'ids'), ('kmlengine::SharedStyleParserObserver', 'styles')]
    for cls, kind in items:
        ctor = [g for g in (d.db.functions[m] for m in d.db.records[cls]['methods']) if g['kind'] == 'ctor' and len(g['params']) == 2 and 'body' in g]
        if len(ctor) != 1:
            chk.unk('I1', cls, 'constructor not found')
            continue
        for strict in (0, 1):
            for method in ('NewElement', 'AddChild', 'EndElement'):
                ip = EInterp(d.db, Cl())
                st = State()
                O = ip.new_obj(st, cls)
                for o in (ROOT, CH):
                    obj(st, o[2], ELEM)
                ml = ip.tmp(st, T('M0'))
                key = '%s %s%s' % (cls.split('::')[-1], method, ' strict' if strict else '')
                rs = []
                for x, _ in ip.run(ctor[0], O, [('p', ml), ('c', strict)], st):
                    args = [('p', ip.tmp(x, CH))] if method == 'NewElement' else [('p', ip.tmp(x, ROOT)), ('p', ip.tmp(x, CH))]
                    rs += ip.call_virtual(x, method, cls, O, args)
                f = d.db.functions[ip.lookup(cls, method, 1 if method == 'NewElement' else 2)]

                def expect(q, s):
                    active = (kind == 'ids' and method == 'NewElement' and is_object(q, CH)) or \
                             (kind == 'styles' and method == 'AddChild' and q.isa(ROOT, 'kmldom::Document') and q.isa(CH, 'kmldom::StyleSelector'))
                    m1, v = s.mem[ml], s.mem[('ret',)]
                    if not active or not q(mk_nz(getter(ip, s, OBJC, 'has_id', CH))):
                        if m1 != T('M0'):
                            return 'the index changes for an element that does not belong in it (%s)' % pp(m1)[:60]
                        return None if q(mk_nz(v)) else 'the parse is stopped for an element that does not belong in the index'
                    k = getter(ip, s, OBJC, 'get_id', CH)
                    if strict and q.mem(T('M0'), k):
                        if q(mk_nz(v)):
                            return 'a duplicate id does not stop a strict parse'
                        return None
                    if not q(mk_nz(v)):
                        return 'the parse is stopped without a duplicate under strict parsing'
                    if not same_map(q, m1, put(T('M0'), k, CH)):
                        return 'the element is not put into the index under its id (%s)' % pp(m1)[:80]
                    return None
                report(chk, 'I1', key, f, rs, expect)


def casts_consistent(q, s):
    return True


def clear_ids(chk, d):
    f = d.fn1('kmlengine::ClearIds')
    O = [T('OBJ', 'X%d' % i) for i in range(4)]
    for n in range(0, 3):
        for m in range(0, 3):
            class C2(Cl):
                def call(self, ip, st, fr, g, this, args, node):
                    if g['qn'] == 'kmlengine::MapIds':
                        r = models.valarg(ip, st, g, 0, args)
                        st.trace = st.trace + (('MapIds', r),)
                        ml = ip.deref_loc(args[1])
                        ip.store(st, ml, models.map_of([(T('KEY', i), O[i]) for i in range(n)]), fr, node)
                        if args[2] != ZERO:
                            st.trace = st.trace + (('dups',),)
                            ip.store(st, ip.deref_loc(args[2]), ('vec', tuple(O[2:2 + m])), fr, node)
                        return [(st, VOID)]
                    return super().call(ip, st, fr, g, this, args, node)
            ip = EInterp(d.db, C2())
            st = State()
            obj(st, 'ROOT', ELEM)
            for o in O:
                obj(st, o[2], OBJC)
            rl = ip.tmp(st, ROOT)
            rs = ip.run(f, None, [('p', rl)], st)

            def expect(q, s):
                if [e for e in s.trace if e[0] == 'MapIds'] != [('MapIds', ROOT)]:
                    return 'the objects of the hierarchy are not collected'
                if m and ('dups',) not in s.trace:
                    return 'objects whose id is used again later keep their id'
                for i, o in enumerate(O):
                    want = i < n or 2 <= i < 2 + m
                    has = getter(ip, s, OBJC, 'has_id', o)
                    if want and has != ZERO:
                        return 'an object keeps its id'
                    if not want and has == ZERO:
                        return 'another object loses its id'
                v = s.mem[('ret',)]
                if (v if v[0] != 'p' else ip.load(s, v[1])) != ROOT:
                    return 'the root is not returned'
                return None
            report(chk, 'I3', 'ClearIds %d objects %d duplicates' % (n, m), f, rs, expect)


def remap_ids(chk, d):
    f = d.fn1('kmlengine::RemapIds')
    O = [T('OBJ', 'X%d' % i) for i in range(3)]
    for n in range(0, 4):
        for out in (True, False):
            ip = EInterp(d.db, Cl())
            st = State()
            for o in O:
                obj(st, o[2], OBJC)
            il = ip.tmp(st, models.map_of([(T('KEY', i), O[i]) for i in range(n)]))
            gl = ip.tmp(st, T('G'))
            ol = ip.tmp(st, T('OUT'))
            pre = st.copy()
            rs = ip.run(f, None, [('p', il), ('p', gl), ('p', ol) if out else ZERO], st)

            def expect(q, s):
                cleared, w = 0, T('OUT')
                for i in range(3):
                    o = O[i]
                    had = q(mk_nz(getter(ip, pre, OBJC, 'has_id', o)))
                    k = getter(ip, pre, OBJC, 'get_id', o)
                    has, now = getter(ip, s, OBJC, 'has_id', o), getter(ip, s, OBJC, 'get_id', o)
                    if i >= n or not had:
                        if (has, now) != (getter(ip, pre, OBJC, 'has_id', o), k):
                            return 'an object outside the map, or without an id, is changed'
                        continue
                    if q.mem(T('G'), k):
                        g = q.val(T('G'), k)
                        if not q(mk_nz(has)) or now != g:
                            return 'a mapped id is not replaced by its mapping'
                        w = put(w, g, o)
                    else:
                        if q(mk_nz(has)):
                            return 'an id without mapping is not cleared'
                        cleared += 1
                if s.mem[('ret',)] != ('c', cleared):
                    return 'the number of cleared ids is reported as %s, not %d' % (pp(s.mem[('ret',)]), cleared)
                if out and not same_map(q, s.mem[ol], w):
                    return 'the remapped objects are not put into the output map under their new ids'
                if s.mem[gl] != T('G') or s.mem[il] != models.map_of([(T('KEY', i), O[i]) for i in range(n)]):
                    return 'an input map is changed'
                return None
            report(chk, 'I3', 'RemapIds %d objects%s' % (n, '' if out else ' no output map'), f, rs, expect)


def lookups(chk, d):
    KF = 'kmlengine::KmlFile'
    ip = EInterp(d.db, Cl())
    for name, fld in (('GetObjectById', 'ObjectPtr'), ('GetSharedStyleById', 'StyleSelectorPtr')):
        f = d.fn1(KF + '::' + name)
        want = pointee_cls(ip.ty(f['ret']))
        # the index of this type
        cands = [q for q, fi in ((a[0], a[1]) for a in ip.all_fields(KF)) if 'map<' in ip.ty(fi['t']).get('n', '').replace('std::', '') and want in ip.ty(fi['t']).get('n', '')]
        if len(cands) != 1:
            chk.unk('I5', name, 'index not found: %s' % cands)
            continue
        ip2 = EInterp(d.db, Cl())
        st = State()
        F = obj(st, 'FILE', KF)
        loc = ('m', F, cands[0])
        st.mem[loc] = T('M0')
        rs = ip2.run(f, F, [('p', ip2.tmp(st, T('KEYS')))], st)
        val = models.mk_mapget(T('M0'), T('KEYS'))

        def expect(q, s):
            v = s.mem[('ret',)]
            if v[0] == 'p':
                v = ip2.load(s, v[1])
            if s.mem[loc] != T('M0'):
                return 'looking up an id changes the index'
            if not q.mem(T('M0'), T('KEYS')):
                return None if v == ZERO else 'an id that is not in the index gives %s' % pp(v)[:60]
            if v == val:
                return None
            if v == ZERO and (q.null(val) or not q.isa(val, want)):
                return None
            return 'an id in the index gives %s' % pp(v)[:60]
        report(chk, 'I5', name, f, rs, expect)


def create(chk, d):
    """KmlFile::Create*: the file is handed out exactly when reading succeeded, with the observers bound to its own indexes"""
    KF = 'kmlengine::KmlFile'

    class C3(Cl):
        def call(self, ip, st, fr, g, this, args, node):
            qn = g['qn']
            if g['n'] == 'AddObserver' and g.get('cls') == 'kmldom::Parser':
                o = args[0]
                cls = st.cls.get(o, '?')
                flds = tuple(sorted((fl[0].split('::')[-1], ip.load(st, ('m', o, fl[0]))) for fl in ip.all_fields(cls))) if cls in ip.db.records else ()
                st.trace = st.trace + (('Observer', this, cls, flds),)
                return [(st, VOID)]
            if qn == 'kmldom::Parser::Parse':
                v = self.vals(ip, st, g, args)
                st.trace = st.trace + (('Parse', this, v[0], args[1]),)
                return [(st, T('parsed', v[0]))]
            if g['n'] == 'IsKmz':
                return [(st, T('iskmz', models.valarg(ip, st, g, 0, args)))]
            if g['n'] == 'OpenFromString':
                return [(st, T('kmz', models.valarg(ip, st, g, 0, args)))]
            if g['n'] == 'ReadKml' and this is not None:
                b = T('kmzread', this)
                out = []
                for x, y in ip.split(st, b, fr, node):
                    if y:
                        ip.store(x, ip.deref_loc(args[0]), T('kmzkml', this), fr, node)
                    out.append((x, ONE if y else ZERO))
                return out
            return super().call(ip, st, fr, g, this, args, node)

        def on_delete(self, ip, st, v):
            st.trace = st.trace + (('Delete', v),)
    for name in ('CreateFromParse', 'CreateFromString', 'CreateFromStringWithUrl'):
        f = d.fn1(KF + '::' + name)
        ip = EInterp(d.db, C3())
        st = State()
        data, url = T('data'), T('url')
        err = ('p', ip.tmp(st, ('s', '')))
        args = [('p', ip.tmp(st, data))]
        cache = obj(st, 'CACHE', 'kmlengine::KmlCache')
        if name == 'CreateFromParse':
            args.append(err)
        if name == 'CreateFromStringWithUrl':
            args += [('p', ip.tmp(st, url)), cache]
        rs = ip.run(f, None, args, st)

        def expect(q, s):
            v = s.mem[('ret',)]
            if q(T('iskmz', data)):
                k = T('kmz', data)
                src = T('kmzkml', k) if not q.null(k) and q(T('kmzread', k)) else None
            else:
                src = data
            ps = [e for e in s.trace if e[0] == 'Parse']
            if src is None:
                if v != ZERO or ps:
                    return 'an archive that cannot be read gives a file'
                return None
            if len(ps) != 1 or ps[0][2] != src:
                return 'the document is not parsed (exactly once)'
            if name == 'CreateFromParse' and ps[0][3] != err:
                return 'errors of the parse are not passed on'
            if q.null(T('parsed', src)):
                return None if v == ZERO else 'a document that does not parse gives a file'
            if v == ZERO or v[0] != 'o':
                return 'a document that parses gives no file'
            root = [ip.load(s, ('m', v, fl[0])) for fl in ip.all_fields(KF) if fl[0].split('::')[-1] == 'root_']
            if root and root != [T('parsed', src)]:
                return 'the root of the file is not the parsed element'
            obs = [e for e in s.trace if e[0] == 'Observer']
            kinds = sorted(e[2].split('::')[-1] for e in obs)
            if kinds != ['GetLinkParentsParserObserver', 'ObjectIdParserObserver', 'SharedStyleParserObserver']:
                return 'the parse is observed by %s' % ', '.join(kinds)
            for e in obs:
                if e[1] != ps[0][1]:
                    return 'an observer is installed on another parser'
                tgt = [x for n_, x in e[3] if x[0] == 'p' and x[1][:2] == ('m', v)]
                if len(tgt) != 1:
                    return '%s does not fill an index of this file' % e[2].split('::')[-1]
            if len(set(x for e in obs for n_, x in e[3] if x[0] == 'p')) != 3:
                return 'two observers fill the same index'
            order = [e[0] for e in s.trace if e[0] in ('Observer', 'Parse')]
            if order.index('Parse') != len(order) - 1:
                return 'an observer is installed after the parse'
            if name == 'CreateFromStringWithUrl':
                u = getter(ip, s, KF, 'get_url', v)
                if u != url:
                    return 'the URL of the file is not the one given'
                if getter(ip, s, KF, 'get_kml_cache', v) != cache:
                    return 'the cache of the file is not the one given'
            return None
        report(chk, 'I4', name, f, rs, expect)

    # import
    SS, DOCC = 'kmldom::StyleSelector', 'kmldom::Document'
    X = [T('OBJ', 'X%d' % i) for i in range(2)]
    PAR = [T('OBJ', 'PAR%d' % i) for i in range(2)]
    for name, strict in (('CreateFromImport', True), ('CreateFromImportLax', False)):
        f = d.fn1(KF + '::' + name)
        for n in (0, 1, 2):
            class C4(C3):
                def call(self, ip, st, fr, g, this, args, node):
                    if g['qn'] == 'kmlengine::MapIds':
                        st.trace = st.trace + (('MapIds', models.valarg(ip, st, g, 0, args), args[1]),)
                        ip.store(st, ip.deref_loc(args[1]), models.map_of([(T('KEY', i), X[i]) for i in range(n)]), fr, node)
                        out = []
                        if args[2] == ZERO:
                            return [(st, VOID)]
                        for x, b in ip.split(st, T('dup'), fr, node):
                            if b:
                                ip.store(x, ip.deref_loc(args[2]), ('vec', (T('OBJ', 'DUP'),)), fr, node)
                            out.append((x, VOID))
                        return out
                    return super().call(ip, st, fr, g, this, args, node)
            ip = EInterp(d.db, C4())
            st = State()
            obj(st, 'ROOT', ELEM)
            for i, x in enumerate(X):
                obj(st, x[2], OBJC)
                obj(st, PAR[i][2], ELEM)
                for y, _ in ip.run(d.db.functions[ip.lookup(OBJC, 'set_id', 1)], x, [('p', ip.tmp(st, T('KEY', i)))], st):
                    st = y
                st.mem[('m', x, 'kmlbase::XmlElement::parent_')] = PAR[i]
            rs = ip.run(f, None, [('p', ip.tmp(st, ROOT))], st)
            want_t = lambda c: [fl[0] for fl in ip.all_fields(KF) if 'map<' in ip.ty(fl[1]['t']).get('n', '').replace('std::', '') and c in ip.ty(fl[1]['t']).get('n', '')]
            sm = want_t(SS)
            om = want_t('kmldom::Object')

            def expect(q, s):
                v = s.mem[('ret',)]
                mi = [e for e in s.trace if e[0] == 'MapIds']
                if len(mi) != 1 or mi[0][1] != ROOT:
                    return 'the ids of the hierarchy are not collected'
                if strict and q(T('dup')):
                    return None if v == ZERO else 'duplicate ids are accepted'
                if v == ZERO or v[0] != 'o':
                    return 'no file is created'
                root = [ip.load(s, ('m', v, fl[0])) for fl in ip.all_fields(KF) if fl[0].split('::')[-1] == 'root_']
                if root and root != [ROOT]:
                    return 'the root of the file is not the element given'
                if len(om) == 1 and mi[0][2] != ('p', ('m', v, om[0])):
                    return 'the ids are not collected into the index of the file'
                w = models.EMPTYMAP
                for i in range(n):
                    if q.isa(X[i], SS) and q.isa(PAR[i], DOCC):
                        w = put(w, T('KEY', i), X[i])
                if len(sm) == 1 and not same_map(q, ip.load(s, ('m', v, sm[0])), w):
                    return 'the shared styles are not exactly the styles with an id in a Document (%s)' % pp(ip.load(s, ('m', v, sm[0])))[:100]
                return None
            report(chk, 'I4', '%s %d objects' % (name, n), f, rs, expect)
        ip = EInterp(d.db, C3())
        st = State()
        rs = ip.run(f, None, [('p', ip.tmp(st, ZERO))], st)
        report(chk, 'I4', name + ' of nothing', f, rs, lambda q, s: None if s.mem[('ret',)] == ZERO else 'importing nothing gives a file')


def finders(chk, d):
    f = d.fn1('kmlengine::GetElementsById')
    for how in HOWS:
        cl = Cl()
        cl.present = how
        ip = EInterp(d.db, cl)
        st = State()
        for o in (ROOT, CH):
            obj(st, o[2], ELEM)
        vl = ip.tmp(st, T('D0'))
        rs = ip.run(f, None, [('p', ip.tmp(st, ROOT)), T('type'), ('p', vl)], st)

        def expect(q, s):
            sers = [e[1] for e in s.trace if e[0] == 'Serialize']
            elem = how in ('SaveElement', 'SaveElementGroup')
            if sers != ([ROOT, CH] if elem else [ROOT]):
                return 'the children of an element are not searched exactly once'
            want = T('D0')
            if elem and q(mk_nz(T('isatype', CH, T('type')))):
                want = T('vapp', want, CH)
            return None if s.mem[vl] == want else 'an element is not reported exactly when it is of the type asked for (%s)' % pp(s.mem[vl])[:60]
        report(chk, 'I6', 'GetElementsById ' + how, f, rs, expect)
    f = d.fn1('kmlengine::GetChildElements')
    for how in HOWS:
        for rec in (0, 1):
            for vec in (0, 1):
                cl = Cl()
                cl.present = how
                ip = EInterp(d.db, cl)
                st = State()
                for o in (ROOT, CH):
                    obj(st, o[2], ELEM)
                vl = ip.tmp(st, T('D0'))
                rs = ip.run(f, None, [('p', ip.tmp(st, ROOT)), ('c', rec), ('p', vl) if vec else ZERO], st)

                def expect(q, s):
                    sers = [e[1] for e in s.trace if e[0] == 'Serialize']
                    elem = how in ('SaveElement', 'SaveElementGroup')
                    if sers != ([ROOT, CH] if elem and rec else [ROOT]):
                        return 'grandchildren are %svisited' % ('not ' if rec else '')
                    if vec and s.mem[vl] != (T('vapp', T('D0'), CH) if elem else T('D0')):
                        return 'a child is not reported exactly once'
                    n = 1 if elem else 0
                    return None if s.mem[('ret',)] == ('c', n) else 'one child counts as %s' % pp(s.mem[('ret',)])[:40]
                report(chk, 'I6', 'GetChildElements %s%s%s' % (how, ' recursive' if rec else '', '' if vec else ' count only'), f, rs, expect)


def namespaces(chk, d):
    f = d.fn1('kmlengine::FindXmlNamespaces')
    N = {0: ('c', 3), 1: ('c', 5)}
    for how in HOWS:
        class C5(Cl):
            def call4(self, ip, st, fr, g, this, args, node):
                if g['n'] == 'FindXmlNamespaceAndPrefix':
                    i = args[0]
                    out = []
                    for x, b in ip.split(st, T('nsknown', i), fr, node):
                        if b:
                            ip.store(x, ip.deref_loc(args[1]), T('prefix', i), fr, node)
                            ip.store(x, ip.deref_loc(args[2]), T('uri', i), fr, node)
                        out.append((x, ONE if b else ZERO))
                    return out
                if g['n'] == 'SetValue' and this is not None:
                    v = self.vals(ip, st, g, args)
                    st.trace = st.trace + (('Set', this) + v,)
                    return [(st, VOID)]
                return None

            def call(self, ip, st, fr, g, this, args, node):
                if g['n'] == 'get_xmlns' and this in (ROOT, CH):
                    return [(st, N[0] if this == ROOT else N[1])]
                if g['n'] == 'SetValue':
                    r = self.call4(ip, st, fr, g, this, args, node)
                    if r:
                        return r
                return super().call(ip, st, fr, g, this, args, node)
        cl = C5()
        cl.present = how
        ip = EInterp(d.db, cl)
        st = State()
        for o in (ROOT, CH):
            obj(st, o[2], ELEM)
        A = obj(st, 'XMLNS', 'kmlbase::Attributes')
        rs = ip.run(f, None, [('p', ip.tmp(st, ROOT)), A], st)

        def expect(q, s):
            elem = how in ('SaveElement', 'SaveElementGroup')
            sers = [e[1] for e in s.trace if e[0] == 'Serialize']
            if sers != ([ROOT, CH] if elem else [ROOT]):
                return 'the children of an element are not searched exactly once'
            want = set()
            for i in ([N[0], N[1]] if elem else [N[0]]):
                if q(T('nsknown', i)):
                    want.add(('Set', A, T('prefix', i), T('uri', i)))
            got = [e for e in s.trace if e[0] == 'Set']
            # the namespace of a simple element is that of its name's prefix (see C27)
            ok = want <= set(got) and all(e[2][0] == 't' and e[3] == T('uri', e[2][2]) for e in got) if how == 'Field' else set(got) == want
            return None if ok else 'the namespaces declared are %s' % ', '.join(pp(e[2:]) for e in got)
        report(chk, 'I6', 'FindXmlNamespaces ' + how, f, rs, expect)


def link_parents(chk, d):
    cls = 'kmlengine::GetLinkParentsParserObserver'
    want = {'PhotoOverlay', 'GroundOverlay', 'ScreenOverlay', 'ItemIcon', 'IconStyle', 'NetworkLink', 'Model'}
    ctor = [g for g in (d.db.functions[m] for m in d.db.records[cls]['methods']) if g['kind'] == 'ctor' and len(g['params']) == 1 and 'body' in g and not g.get('copy')]
    f = d.db.functions[EInterp(d.db, Cl()).lookup(cls, 'NewElement', 1)]
    for n, v in sorted(d.tval.items()):
        if not n.startswith('Type_') or n in ('Type_Unknown', 'Type_Invalid'):
            continue

        class C6(Cl):
            def call(self, ip, st, fr, g, this, args, node):
                if g['n'] == 'Type' and this == CH:
                    return [(st, ('c', v))]
                return super().call(ip, st, fr, g, this, args, node)
        ip = EInterp(d.db, C6())
        st = State()
        obj(st, 'CH', ELEM)
        O = ip.new_obj(st, cls)
        vl = ip.tmp(st, T('D0'))
        rs = []
        for x, _ in ip.run(ctor[-1], O, [('p', vl)], st):
            rs += ip.call_virtual(x, 'NewElement', cls, O, [('p', ip.tmp(x, CH))])
        exp = T('vapp', T('D0'), CH) if n[5:] in want else T('D0')
        report(chk, 'I7', n[5:], f, rs, lambda q, s: 'a link parent stops the parse' if not q(mk_nz(s.mem[('ret',)])) else
               None if s.mem[vl] == exp else 'a %s is %slisted as having a link' % (n[5:], 'not ' if n[5:] in want else ''))


def run(chk, db):
    d = Dom(db)
    d.classes()
    chk.rule('I1', 'the observers of a parse put an object with an id (a style with an id that is added to a Document) into the index under its id, '
                   'the last one winning, and stop the parse exactly at a duplicate under strict parsing')
    chk.rule('I2', 'MapIds visits every element of the hierarchy once, puts every object with an id into the map and reports every object whose id is taken over')
    chk.rule('I3', 'ClearIds clears, RemapIds replaces or clears, the id of exactly the objects collected')
    chk.rule('I4', 'a KmlFile is handed out exactly when its content was read, with its own indexes filled by the parse or import')
    chk.rule('I5', 'looking up an id gives the object indexed under it or nothing')
    chk.rule('I6', 'searching a hierarchy reports every matching element exactly once')
    chk.rule('I7', 'every kind of element that has a Link or Icon is listed as link parent, no other')
    for g in (observers, mapids, clear_ids, remap_ids, lookups, create, finders, namespaces, link_parents):
        guard(chk, g.__name__, g, chk, d)
    return {}
