"""Accessor contract of every element class: set_X / get_X / has_X / clear_X / add_X and arrays,
and the write-then-read agreement of every accessor with Serialize and AddElement."""
from rt import *
import harness
from children import short, conds, where_of, SELF_TEXT

VAL = T('VALUE')
SKIP = {'char_data', 'xmlns', 'default_xmlns'}


def chain(db, c):
    r = db.records.get(c)
    out = [c]
    if r:
        for b in r['bases']:
            out += [x for x in chain(db, b['n']) if x not in out]
    return out


def props(db, C):
    """property name -> {role: function}"""
    out = {}
    for b in chain(db, C):
        for m in db.records.get(b, {}).get('methods', []):
            f = db.functions[m]
            if 'body' not in f or f.get('static'):
                continue
            n = f['n']
            for role, np in (('set', 1), ('get', 0), ('has', 0), ('clear', 0), ('add', 1)):
                if n.startswith(role + '_') and len(f['params']) == np:
                    x = n[len(role) + 1:]
                    if role == 'get' and x.endswith('_array_size'):
                        x, r2 = x[:-len('_array_size')], 'size'
                    else:
                        r2 = role
                    out.setdefault(x, {}).setdefault(r2, f)
            if n.startswith('get_') and n.endswith('_array_at') and len(f['params']) == 1:
                out.setdefault(n[4:-len('_array_at')], {}).setdefault('at', f)
            if n.startswith('set_') and len(f['params']) == 2:
                out.setdefault(n[4:], {}).setdefault('set2', f)
            if n.startswith('add_') and len(f['params']) == 2:
                out.setdefault(n[4:], {}).setdefault('add2', f)
    for x in SKIP:
        out.pop(x, None)
    # a scalar and an array of the same name are two properties
    for x, r in list(out.items()):
        if 'set' in r and 'size' in r:
            out[x + '[]'] = {k: r.pop(k) for k in ('add', 'size', 'at', 'add2') if k in r}
    return out


class A:
    def __init__(self, d, C):
        self.d, self.C, self.db = d, C, d.db
        self.cl = DomClient()
        self.ip = Interp(d.db, self.cl)
        self.cl.want = lambda ev: False

    def unknown(self):
        st = State()
        self.P = self.d.unknown_object(st, 'P', self.C)
        self.cl.roots = (self.P,)
        st.mem[('m', self.P, XF)] = ZERO
        return st

    def fresh(self):
        st = State()
        P = ('o', 1)
        st.cnt = 5
        st.cls[P] = self.C
        fr = Frame(('top',), {'qn': '<entry>', 'file': '', 'ret': 0}, None, None)
        return P, self.ip.default_construct(st, P, self.C, fr)

    def arg(self, st, f, i=0, tag=VAL):
        """(argument, value it denotes, kind)"""
        pt = self.ip.ty(f['params'][i]['t'])
        n = strip_type(pt.get('n', ''))
        k = kind_of_class(n) if pt.get('k') == 'rec' else None
        if k == 'smart':
            import re
            m = re.search(r'<\s*(?:class )?([\w:<>]+)\s*>$', n)
            cls = m.group(1) if m else None
            st.cnt += 1
            E = ('o', st.cnt)
            conc = [c for c in self.d.concrete_classes() if self.ip.is_sub(c, cls)] if cls else []
            if conc:
                st.cls[E] = conc[0]
            st.mem[('m', E, XF)] = ZERO
            st.mem[('m', E, 'kmlbase::XmlElement::parent_')] = ZERO
            st.mem[('lazy', E)] = ONE
            loc = self.ip.tmp(st, E)
            return (('p', loc) if pt.get('ref') else E), E, 'elem'
        if k == 'string':
            loc = self.ip.tmp(st, tag)
            return (('p', loc) if pt.get('ref') else tag), tag, 'str'
        if pt.get('k') == 'rec':
            a = T('OBJ', 'ARG', tag)
            st.assume(mk_nz(a), True)
            if n == 'kmlbase::Color32':
                st.mem[('m', a, 'kmlbase::Color32::color_abgr_')] = tag
            return a, a, 'rec:' + n
        if pt.get('ref'):
            loc = self.ip.tmp(st, tag)
            return ('p', loc), tag, 'scalar'
        return tag, tag, 'scalar'

    def value(self, st, f, r):
        """the value denoted by a getter's result"""
        rt = self.ip.ty(f['ret'])
        n = strip_type(rt.get('n', ''))
        if rt.get('k') == 'rec' and kind_of_class(n) is None and self.db.records.get(n):
            if r[0] == 'rec' or r[0] == 't' and r[1] in ('deref', 'fld', 'at'):
                return norm_rec(r)
            return norm_rec(models.snapshot(self.ip, st, r, n))
        if rt.get('ref') and r[0] == 'p':
            return self.ip.load(st, ip_loc(self.ip, r))
        return r

    def call(self, st, f, args=()):
        fr = Frame(('top',), {'qn': '<entry>', 'file': '', 'ret': 0}, None, None)
        return self.ip.invoke(st.copy(), f, self.this, list(args), fr, None)

    def getv(self, st, f, args=()):
        """set of values f() can return in st"""
        return set(self.value(s, f, r) for s, r in self.call(st, f, args))


def norm_rec(r):
    if r[0] == 'rec' and r[1] == 'kmlbase::Color32' and len(r[2]) == 1:
        return r[2][0][1]
    return r


def ip_loc(ip, r):
    return ip.deref_loc(r)


def truth(st, v):
    return st.decide(mk_nz(v)) if v[0] != 'c' else bool(v[1])


def run_class(chk, d, C):
    db = d.db
    ps = props(db, C)
    cname = C.split('::')[-1]
    a = A(d, C)

    def key(x, what):
        return '%s::%s %s' % (cname, x, what)

    def w(f):
        return '%s:%s %s' % (f['file'], f.get('line', f.get('l', '?')), f['qn'])

    def bad(rule, x, what, f, msg):
        chk.bad(rule, key(x, what), w(f), msg)

    # --- freshly constructed ------------------------------------------------
    defaults = {}
    sizes = {}
    try:
        P, sts = a.fresh()
        a.this = P
        for s in sts:
            for kf, f in a.ip.all_fields(C):
                t = a.ip.ty(f['t'])
                if t.get('ref') or t.get('k') in ('rec', 'arr'):
                    continue
                v = s.mem.get(('m', P, kf))
                if v is None or v == UNDEF:
                    chk.bad('A0', '%s.%s' % (cname, kf.split('::')[-1]), C, 'the constructor leaves %s uninitialised' % kf)
                else:
                    chk.ok('A0')
            for x, r in ps.items():
                if 'has' in r:
                    vs = a.getv(s, r['has'])
                    if all(truth(s, v) is False for v in vs):
                        chk.ok('A1')
                    else:
                        bad('A1', x, 'default', r['has'], 'a new %s reports %s as present' % (cname, x))
                if 'size' in r:
                    vs = a.getv(s, r['size'])
                    sizes[x] = vs
                    if vs == {ZERO} or 'has' in r and 'get' not in r:
                        chk.ok('A1')
                    else:
                        bad('A1', x, 'default', r['size'], 'a new %s has a non-empty %s array' % (cname, x))
                if 'get' in r and 'has' in r:
                    defaults[x] = a.getv(s, r['get'])
    except Budget as e:
        chk.unk('A0', cname, e)

    st0 = a.unknown()
    a.this = P = a.P

    def observe(st, only=None):
        out = {}
        for y, r in ps.items():
            for role in ('has', 'get', 'size'):
                if role in r and (only is None or y in only):
                    out[(y, role)] = frozenset(a.getv(st, r[role]))
        return out

    base = observe(st0)

    def frame(rule, x, what, f, st, skip=()):
        after = observe(st)
        for k in base:
            if k[0] == x or k[0] in skip:
                continue
            if after[k] != base[k]:
                bad(rule, x, what, f, '%s also changes %s_%s' % (f['n'], k[1], k[0]))
                return
        chk.ok(rule)

    for x, r in sorted(ps.items()):
        try:
            one(chk, d, C, a, st0, P, x, r, bad, frame, defaults, key, sizes)
        except Budget as e:
            chk.unk('A2', key(x, ''), e)


def one(chk, d, C, a, st0, P, x, r, bad, frame, defaults, key, sizes):
    ip = a.ip
    # --- set ------------------------------------------------------------------
    if 'set' in r:
        f = r['set']
        st = st0.copy()
        arg, val, kind = a.arg(st, f)
        outs = [s for s, _ in a.call(st, f, [arg])]
        if not outs:
            chk.unk('A2', key(x, 'set'), 'setter has no normal path')
        for s in outs:
            if 'has' in r:
                vs = a.getv(s, r['has'])
                if all(truth(s, v) is True for v in vs):
                    chk.ok('A2')
                elif kind == 'elem' and any(truth(s, v) is False for v in vs) and False:
                    pass
                else:
                    bad('A2', x, 'set/has', f, 'after set_%s, has_%s() is not true when %s' % (x, x, conds(s, P)))
            if 'get' in r:
                vs = a.getv(s, r['get'])
                want = norm_rec(models.snapshot(ip, s, arg, kind[4:])) if kind.startswith('rec:') else val
                if vs == {want}:
                    chk.ok('A2')
                else:
                    bad('A2', x, 'set/get', f, 'get_%s() after set_%s(v) is %s when %s' % (x, x, ', '.join(short(v) for v in vs), conds(s, P)))
            frame('A4', x, 'set', f, s)
        if kind == 'elem' and 'has' in r:
            st = st0.copy()
            loc = ip.tmp(st, ZERO)
            byref = ip.ty(f['params'][0]['t']).get('ref')
            for s, _ in a.call(st, f, [('p', loc) if byref else ZERO]):
                vs = a.getv(s, r['has'])
                if all(truth(s, v) is False for v in vs):
                    chk.ok('A2')
                else:
                    bad('A2', x, 'set null', f, 'after set_%s(NULL), has_%s() is not false' % (x, x))
        write_read(chk, d, C, a, P, x, r, f, outs, val, kind, arg, bad, key)
    # --- clear ----------------------------------------------------------------
    if 'clear' in r:
        f = r['clear']
        for s, _ in a.call(st0, f):
            if 'has' in r:
                vs = a.getv(s, r['has'])
                if all(truth(s, v) is False for v in vs):
                    chk.ok('A3')
                else:
                    bad('A3', x, 'clear/has', f, 'has_%s() is not false after clear_%s()' % (x, x))
            if 'get' in r and x in defaults:
                vs = a.getv(s, r['get'])
                if vs == defaults[x]:
                    chk.ok('A3')
                else:
                    bad('A3', x, 'clear/default', f, 'get_%s() after clear_%s() is %s but a new element has %s'
                        % (x, x, ', '.join(short(v) for v in vs), ', '.join(short(v) for v in defaults[x])))
            if 'size' in r:
                if a.getv(s, r['size']) in ({ZERO}, sizes.get(x)):
                    chk.ok('A3')
                else:
                    bad('A3', x, 'clear/size', f, 'the %s array is not empty after clear_%s()' % (x, x))
            frame('A4', x, 'clear', f, s)
    # --- arrays ---------------------------------------------------------------
    if 'add' in r and 'size' in r and 'at' in r:
        f = r['add']
        st = st0.copy()
        arg, val, kind = a.arg(st, f)
        n0 = a.getv(st0, r['size'])
        for s, _ in a.call(st, f, [arg]):
            n1 = a.getv(s, r['size'])
            ok = len(n0) == 1 and len(n1) == 1
            if ok:
                o, n = list(n0)[0], list(n1)[0]
                ok = n == T('+', o, ONE)
            if not ok:
                bad('A5', x, 'add/size', f, 'add_%s does not make the array one longer when %s' % (x, conds(s, P)))
                continue
            chk.ok('A5')
            got = a.getv(s, r['at'], [o])
            want = norm_rec(models.snapshot(ip, s, arg, kind[4:])) if kind.startswith('rec:') else val
            if got == {want}:
                chk.ok('A5')
            else:
                bad('A5', x, 'add/at', f, 'the last element after add_%s is %s' % (x, ', '.join(short(v) for v in got)))
            I = T('OBJ', 'INDEX')
            s2 = s.copy()
            if s2.assume(T('lt', I, o), True) is not None:
                before = a.getv(st0, r['at'], [I])
                now = a.getv(s2, r['at'], [I])
                if now == before or all(mentions(v, lambda y: y == I) for v in now):
                    chk.ok('A5')
                else:
                    bad('A5', x, 'add/others', f, 'add_%s changes other elements' % x)
            frame('A4', x, 'add', f, s)


def as_attribute(d, C, s, P, val):
    """is the value written by SerializeAttributes on every path"""
    import attributes
    cl = attributes.AttrClient()
    ip = Interp(d.db, cl)
    cl.want = lambda ev: mentions(ev, lambda y: y == val)
    q = s.copy()
    q.trace = ()
    q.cls[attributes.OUT] = 'kmlbase::Attributes'
    q.assume(mk_nz(attributes.OUT), True)
    m = ip.lookup(C, 'SerializeAttributes', 1)
    if d.db.functions[m].get('cls') == 'kmldom::Element':
        return False
    rs = ip.call_virtual(q, 'SerializeAttributes', C, P, [attributes.OUT])
    return all(len([e for e in x.trace if e[0] == 'Set']) == 1 for x, _ in rs)


def write_read(chk, d, C, a, P, x, r, f, outs, val, kind, arg, bad, key):
    """set_X(v); Serialize; AddElement(what was written) gives get_X() == v"""
    ip = a.ip
    hit = (lambda y: y == val) if not kind.startswith('rec:') else (lambda y: y == arg or y == VAL)
    for s in outs:
        a.cl.want = lambda ev: ev[0] not in NOISE and mentions(ev, hit)
        q = s.copy()
        q.trace = ()
        try:
            rs = [z for z, _ in ip.call_virtual(q, 'Serialize', C, P, [S])]
        finally:
            a.cl.want = lambda ev: False
        for z in rs:
            tr = z.trace
            if not tr and kind == 'scalar' and any(mentions(k, lambda y: len(y) > 1 and y[1] == 'enumstr') for k, v in z.facts.items()):
                continue    # not a value of the enumeration
            if not tr and as_attribute(d, C, s, P, val):
                chk.ok('A6', key(x, 'attribute'))
                continue
            if len(tr) != 1:
                if not tr:
                    bad('A6', x, 'written', f, 'the value set with set_%s is not written when %s' % (x, conds(z, P)))
                else:
                    bad('A6', x, 'written', f, 'the value set with set_%s is written %d times when %s' % (x, len(tr), conds(z, P)))
                return
            ev = tr[0]
            if ev[0] == 'Emit':
                chk.ok('A6', key(x, 'element'))
                continue
            if ev[0] == 'BeginById':
                chk.ok('A6', key(x, 'attribute'))   # attribute: see the attributes check
                continue
            if ev[0] == 'SaveContent' and C in SELF_TEXT or ev[0] == 'SaveContent' and ev[1] == val:
                chk.ok('A6', key(x, 'content'))
                continue
            if ev[0] != 'Field' or ev[1][0] != 'c':
                chk.unk('A6', key(x, 'written'), ev)
                return
            # read back
            p = Pair(d, C, ev[1][1])

            def prep(st, ip2, P2, E, text=ev[2]):
                st.mem[('m', E, 'kmldom::Element::char_data_')] = text
            b = A(d, C)
            okr = True
            for s2 in p.add(prep):
                if any(v and k[1] == 'eq' and ('c', -1) in k[2:] for k, v in s2.facts.items()):
                    continue
                if any(mentions(k, lambda y: y == ('s', '<![CDATA[')) and not v for k, v in s2.facts.items()):
                    continue
                b.ip, b.cl, b.this = p.ip, p.cl, p.P
                p.cl.want = lambda ev: False
                if 'get' in r:
                    vs = b.getv(s2, r['get'])
                    if vs != {VAL}:
                        bad('A6', x, 'read back', f, 'written as type %s, but reading that back gives get_%s() = %s' % (d.tname[ev[1][1]], x, ', '.join(short(v) for v in vs)))
                        return
                if 'has' in r:
                    vs = b.getv(s2, r['has'])
                    if not all(truth(s2, v) is True for v in vs):
                        bad('A6', x, 'read back has', f, 'written as type %s, but after reading that back has_%s() is not true' % (d.tname[ev[1][1]], x))
                        return
            chk.ok('A6', key(x, d.tname[ev[1][1]]))


def run(chk, db):
    d = Dom(db)
    classes = d.concrete_classes()
    chk.rule('A0', 'every scalar data member of an element class is initialised by its constructor')
    chk.rule('A1', 'a newly created element reports no field as present and every array as empty')
    chk.rule('A2', 'after set_X(v): has_X() is true and get_X() is v; after set_X(NULL): has_X() is false')
    chk.rule('A3', 'after clear_X(): has_X() is false, get_X() is the value of a new element, arrays are empty')
    chk.rule('A4', 'set_X, clear_X and add_X change no other field')
    chk.rule('A5', 'add_X appends: the array is one longer, ends with the new element, the rest is unchanged')
    chk.rule('A6', 'what set_X(v) stored is written exactly once by Serialize, and AddElement of what was written '
                   'restores get_X() == v and has_X() == true')

    def work(c, C):
        run_class(c, d, C)
    harness.parallel(chk, classes, work)
    return dict(classes=len(classes), properties=sum(len(props(db, C)) for C in classes))
