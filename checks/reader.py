"""The SAX handler that builds the tree: what StartElement opens EndElement closes, known elements are handed to their
parent exactly once, unknown ones are kept as text, text goes to the innermost open element."""
from rt import *
import harness
from children import short
from typeid import where, pointee, xsd_object, single
import typeid

H = T('OBJ', 'H')
KH = 'kmldom::KmlHandler'
NAME = T('NAME')
A1, V1, A2, V2 = T('A1'), T('V1'), T('A2'), T('V2')
ATTRS = {0: ('vec', ()), 1: ('vec', (A1, V1)), 2: ('vec', (A1, V1, A2, V2))}
CONTENT = T('CONTENT')
OB = T('OBJ', 'OB1')


class Cl(DomClient):
    """records what the handler does to elements, observers and the XML parser"""
    def __init__(self, d):
        super().__init__()
        self.d = d
        self.xsd = xsd_object(d)

    def schema(self, f, vals):
        if self.xsd is None or not all(v[0] in 'cs' for v in vals):
            return None
        ip = Interp(self.d.db, typeid.Cl(self.xsd))
        st = State()
        for k, v in self.xsd[1].items():
            st.mem[k] = v
        st.cls[self.xsd[0]] = 'kmldom::Xsd'
        st.assume(mk_nz(self.xsd[0]), True)
        a = [('p', ip.tmp(st, x)) if ip.ty(p['t']).get('ref') else x for p, x in zip(f['params'], vals)]
        return single(ip.run(f, self.xsd[0], a, st))

    def call(self, ip, st, fr, f, this, args, node):
        qn, n = f['qn'], f['n']
        cls = f.get('cls', '')
        base = qn.split('<')[0]
        if n == 'XML_StopParser':
            st.trace = st.trace + (('Stop', args[1]),)
            return [(st, ONE)]
        if n.startswith('XML_'):
            return [(st, T(n))]
        if qn == 'kmldom::KmlFactory::GetFactory':
            return [(st, T('FACTORY'))]
        if cls == 'kmldom::KmlFactory' and n == 'CreateElementById' and args[0][0] == 'c':
            if args[0][1] not in self.d.classes():
                return [(st, ZERO)]
            e = ip.new_obj(st, 'kmldom::Element')
            st.mem[('mk', e)] = args[0]
            st.mem[('lazy', e)] = ONE
            return [(st, e)]
        if cls == 'kmldom::KmlFactory' and n == 'CreateElementById':
            e = ip.new_obj(st, 'kmldom::Element')
            st.mem[('mk', e)] = args[0]
            st.mem[('lazy', e)] = ONE
            s2 = st.copy()
            st.assume(T('factory_makes', args[0]), True)
            s2.assume(T('factory_makes', args[0]), False)
            return [(st, e), (s2, ZERO)]
        if cls == 'kmldom::KmlFactory' and n == 'CreateFieldById':
            e = ip.new_obj(st, 'kmldom::Field')
            st.mem[('mk', e)] = args[0]
            st.mem[('lazy', e)] = ONE
            return [(st, e)]
        if cls == 'kmldom::KmlFactory' and n.startswith('Create') and not f['params']:
            e = ip.new_obj(st, 'kmldom::Element')
            st.mem[('mk', e)] = T(n)
            st.mem[('lazy', e)] = ONE
            return [(st, e)]
        if cls == 'kmldom::Xsd':
            if n == 'GetSchema':
                return [(st, T('XSD'))]
            vals = [models.valarg(ip, st, f, i, args) for i in range(len(args))]
            v = self.schema(f, vals)
            if v is None:
                v = T('xsd', n, *vals)
                for c in ('Type_description', 'Type_Schema'):
                    st.assume(mk_eq(v, ('c', self.d.tval[c])), False)
            return [(st, v)]
        if cls == 'kmlbase::Attributes' and n == 'Create':
            return [(st, T('attrs', models.valarg(ip, st, f, 0, args)))]
        if base.startswith('kmldom::As') and f['kind'] == 'fn' and len(args) == 1:
            v = models.valarg(ip, st, f, 0, args)
            c = T('isa', v, pointee(ip, f['ret']))
            s2 = st.copy()
            st.assume(c, True)
            s2.assume(c, False)
            return [(st, v), (s2, ZERO)]
        if n == 'Type' and f.get('virt') and len(args) == 0 and (this[0] == 'o' or this[:2] == ('t', 'OBJ') or this[:2] == ('t', 'at')):
            return [(st, st.mem.get(('mk', this), T('etype', this)))]
        if cls == 'kmldom::ParserObserver' or (f.get('virt') and this == OB):
            ev = ('Ob', n, this) + tuple(models.valarg(ip, st, f, i, args) for i in range(len(args)))
            st.trace = st.trace + (ev,)
            return [(st, T('obret', n))]
        if this is not None and n in ('AddElement', 'AddUnknownElement', 'ParseAttributes') and ip.is_sub(cls, 'kmldom::Element') and this != H:
            ev = (n, this) + tuple(models.valarg(ip, st, f, i, args) for i in range(len(args)))
            st.trace = st.trace + (ev,)
            return [(st, VOID)]
        if cls == KH and n in ('HandleOldSchemaEndElement', 'HandleOldSchemaParentEndElement'):
            return [(st, VOID)]
        if cls == KH and n == 'ParseOldSchemaChild' and len(args) == 3:
            s2 = st.copy()
            ip.store(st, ip.deref_loc(args[2]), T('vapp', ip.load(st, ip.deref_loc(args[2])), ip.new_obj(st, 'kmldom::SimpleData')), fr, node)
            return [(st, ONE), (s2, ZERO)]
        if cls == KH and n == 'FindOldSchemaParentName':
            s2 = st.copy()
            if len(args) == 2:
                ip.store(st, ip.deref_loc(args[1]), T('SCHEMANAME'), fr, node)
            return [(st, VOID), (s2, VOID)]
        if base in ('kmlbase::EscapeXml', 'kmlbase::EscapeXmlAttribute'):
            return [(st, T('esc', base[9:], models.valarg(ip, st, f, 0, args)))]
        return None


def fld(n):
    return ('m', H, KH + '::' + n)


FIELDS = ('skip_depth_', 'in_description_', 'nesting_depth_', 'in_old_schema_placemark_')
K, D, N = T('K'), T('D'), T('N')


def positive(st, x):
    st.assume(mk_nz(x), True)
    st.assume(T('lt', x, ZERO), False)


MODES = ['root', 'known', 'oldchild', 'unknown', 'unknown-old', 'description']


def prepare(mode, name):
    st = State()
    st.cls[H] = KH
    st.assume(mk_nz(H), True)
    m = st.mem
    P = T('OBJ', 'PARENT')
    st.cls[P] = 'kmldom::Element'
    st.assume(mk_nz(P), True)
    st.cls[OB] = 'kmldom::ParserObserver'
    st.assume(mk_nz(OB), True)
    ST, CH = T('ST0'), T('CH0')
    if mode == 'root':
        m[fld('stack_')] = ('vec', ())
        m[fld('char_data_')] = ('vec', ())
        m[fld('nesting_depth_')] = ZERO
    else:
        m[fld('stack_')] = T('vapp', ST, P)
        m[fld('char_data_')] = T('vapp', CH, T('TXT'))
        m[fld('nesting_depth_')] = N
        positive(st, N)
    skip = K if mode in ('unknown', 'unknown-old', 'description') else ZERO
    if skip == K:
        positive(st, K)
    m[fld('skip_depth_')] = skip
    desc = D if mode == 'description' else ZERO
    if desc == D:
        positive(st, D)
    m[fld('in_description_')] = desc
    m[fld('in_old_schema_placemark_')] = ONE if mode in ('oldchild', 'unknown-old') else ZERO
    if mode in ('oldchild', 'unknown-old'):
        m[fld('simpledata_vec_')] = T('vapp', T('SD0'), T('OBJ', 'SD'))
    m[fld('observers_')] = ('p', ('v', 'glob', 'obs'))
    m[('v', 'glob', 'obs')] = ('vec', (OB,))
    return st, P


def start(d, ip, st, name, attrs):
    f = d.fn1(KH + '::StartElement')
    return [s for s, _ in ip.run(f, H, [('p', ip.tmp(st, name)), ('p', ip.tmp(st, attrs))], st)]


def snap(st, ip):
    r = {}
    for x in FIELDS:
        r[x] = st.mem.get(fld(x))
    r['stack'] = st.mem.get(fld('stack_'))
    r['chars'] = st.mem.get(fld('char_data_'))
    return r


def depth_of(v, base):
    """how many entries v has above base"""
    n = 0
    while v != base:
        if v[0] == 't' and v[1] == 'vapp':
            v, n = v[2], n + 1
        elif v[0] == 'vec' and base[0] == 'vec' and v[1][:len(base[1])] == base[1]:
            return n + len(v[1]) - len(base[1])
        else:
            return None
    return n


def parts(t):
    """the pieces of a concatenated text"""
    if t[0] == 't' and t[1] == 'cat':
        out = []
        for x in t[2:]:
            out += parts(x)
        return out
    return [t]


def text_top(v):
    if v[0] == 't' and v[1] == 'vapp':
        return v[3]
    if v[0] == 'vec' and v[1]:
        return v[1][-1]
    return None


def run(chk, db):
    d = Dom(db)
    chk.rule('U1', 'EndElement of an element restores the depth counters, the element stack and the text stack to what they were before its StartElement '
                   '(the root stays on the stack)')
    chk.rule('U2', 'a known element is pushed at its start and handed to its parent exactly once at its end, after its text has been set; '
                   'only an observer can veto that')
    chk.rule('U3', 'an unknown element in a known one is kept as text: start tag, content, end tag, handed to the innermost known element exactly once; '
                   'inside an unknown element everything goes to that text')
    chk.rule('U4', 'text goes to the innermost open element, unchanged for known elements and description, XML-escaped in unknown elements')
    chk.rule('U5', 'an element nested deeper than the limit, an unknown root and a refusing observer stop the parser; the depth limit is checked before anything else')
    chk.rule('U6', 'each observer is told of a new element once, after it is open, and of a finished child in order: EndElement, (AddElement), AddChild')
    names = [('s', 'description'), ('s', 'Schema'), NAME]
    n_paths = 0
    fe, fc, fs = d.fn1(KH + '::EndElement'), d.fn1(KH + '::CharData'), d.fn1(KH + '::StartElement')
    items = [(m, nm, old, k) for m in MODES for nm in names for old in (False, True) for k in ATTRS if not (old and m == 'root')]

    def work(c, item):
        mode, name, old, na = item
        ip = Interp(db, Cl(d), budget=600000)
        st, P = prepare(mode, name)
        st.mem[fld('old_schema_name_')] = T('OLDNAME') if old else ('s', '')
        if old:
            st.assume(mk_nz(mk_size(T('OLDNAME'))), True)
        if name == NAME:
            for k in ('description', 'Schema'):
                st.assume(mk_eq(NAME, ('s', k)), False)
        before = snap(st, ip)
        key0 = '%s <%s>%s%s' % (mode, name[1] if name[0] == 's' else 'any', ' old-schema' if old else '', ' %d attributes' % na if na else '')
        for s in start(d, ip, st, name, ATTRS[na]):
            c.notes['paths'] = c.notes.get('paths', 0) + 1
            judge_start(c, d, ip, mode, name, na, key0, before, s, P, fe, fc, fs)
    harness.parallel(chk, items, work)
    # U5: the limit
    ip = Interp(db, Cl(d))
    for mode in MODES:
        st, P = prepare(mode, NAME)
        st.mem[fld('nesting_depth_')] = ('c', 10 ** 6)
        b = snap(st, ip)
        for s in start(d, ip, st, NAME, ATTRS[1]):
            stops = [e for e in s.trace if e[0] == 'Stop']
            a = snap(s, ip)
            if len(stops) == 1 and len(s.trace) == 1 and all(a[x] == b[x] for x in ('skip_depth_', 'in_description_', 'stack', 'chars')):
                chk.ok('U5', 'depth limit ' + mode)
            else:
                chk.bad('U5', 'depth limit ' + mode, where(fs), 'an element nested 1000000 deep does not just stop the parser (events %s)' % [e[0] for e in s.trace])
        st, P = prepare(mode, NAME)
        st.mem[fld('nesting_depth_')] = ('c', 0 if mode == 'root' else 5)
        st.mem[fld('old_schema_name_')] = ('s', '')
        for k in ('description', 'Schema'):
            st.assume(mk_eq(NAME, ('s', k)), False)
        for s in start(d, ip, st, NAME, ATTRS[1]):
            stops = [e for e in s.trace if e[0] == 'Stop']
            vetoed = any(k[:2] == ('t', 'obret') and v is False for k, v in s.facts.items()) or \
                any(k[:3] == ('t', 'nz', T('obret', 'NewElement')) and v is False for k, v in s.facts.items())
            pushed = depth_of(s.mem[fld('stack_')], b['stack'])
            if mode == 'root' and depth_of(s.mem[fld('stack_')], ('vec', ())) == 0:
                if stops:
                    chk.ok('U5', 'unknown root')
                else:
                    chk.bad('U5', 'unknown root', where(fs), 'an unknown root element does not stop the parser')
            elif stops and not vetoed:
                chk.bad('U5', 'needless stop ' + mode, where(fs), 'the parser is stopped for an element at depth 5 although no observer refused')
            elif not stops and vetoed:
                chk.bad('U5', 'veto ' + mode, where(fs), 'an observer refuses a new element but the parser goes on')
            else:
                chk.ok('U5')
    return dict(start_modes=len(MODES), cases=len(items))


def judge_start(c, d, ip, mode, name, na, key0, before, s, P, fe, fc, fs):
    evs = s.trace
    if any(e[0] == 'Stop' for e in evs):
        c.ok('U5')
        return
    after = snap(s, ip)
    dst = depth_of(after['stack'], before['stack'])
    dch = depth_of(after['chars'], before['chars'])
    if dst is None:
        dst = 'changed'
    E = None
    if dst == 1:
        E = text_top(after['stack'])
        kind = 'known'
    elif dst == 0:
        kind = 'text'
    else:
        c.bad('U1', key0 + ' stack', where(fs), 'opening an element changes the element stack by %s entries' % dst)
        return
    key = '%s %s' % (key0, kind)
    if before['skip_depth_'] != ZERO and kind == 'known':
        c.bad('U3', key, where(fs), 'a known element is created inside an unknown one')
        return
    # what the factory made must be opened
    if kind == 'known':
        new = [e for e in evs if e[0] == 'Ob']
        if len(new) == 1 and new[0][1] == 'NewElement' and new[0][3] == E:
            c.ok('U6', key)
        else:
            c.bad('U6', key, where(fs), 'the observer is not told exactly once of the new element (%s)' % [e[:2] for e in new])
        pa = [e for e in evs if e[0] == 'ParseAttributes']
        if pa and (len(pa) != 1 or pa[0][1] != E or pa[0][2] != T('attrs', ATTRS[na])):
            c.bad('U2', key + ' attributes', where(fs), 'the attributes are not given to the new element once')
        elif not pa and na and s.cls.get(E) != 'kmldom::Field':
            c.bad('U2', key + ' attributes', where(fs), 'a complex element with attributes does not get them')
        else:
            c.ok('U2')
    # ---- text content
    indesc = after['in_description_'] != ZERO and s.decide(mk_nz(after['in_description_'])) is not False
    q = s.copy()
    q.trace = ()
    for s1, _ in ip.run(fc, H, [('p', ip.tmp(q, CONTENT))], q):
        top0, top1 = text_top(after['chars']), text_top(s1.mem[fld('char_data_')])
        if top0 is None:
            c.bad('U4', key, where(fc), 'there is nowhere to put the text of the element')
            continue
        add = parts(top1)[len([x for x in parts(top0) if x != ('s', '')]):] if top1 is not None else []
        inunk = after['skip_depth_'] != ZERO and not indesc
        want = [T('esc', 'EscapeXml', CONTENT)] if inunk else [CONTENT]
        if add == want or (len(add) == 1 and inunk and add[0][:2] == ('t', 'esc') and add[0][3] == CONTENT and add[0][2] == 'EscapeXml'):
            c.ok('U4', key)
        else:
            c.bad('U4', key, where(fc), 'text in %s is added as %s' % ('an unknown element' if inunk else 'a known element', [short(x) for x in add]))
        # ---- end
        e0 = s1.copy()
        e0.trace = ()
        for s2, _ in ip.run(fe, H, [('p', ip.tmp(e0, name))], e0):
            judge_end(c, d, ip, mode, name, na, key, kind, before, after, s2, E, P, fe, s1)


def judge_end(c, d, ip, mode, name, na, key, kind, before, after, s2, E, P, fe, s1):
    end = snap(s2, ip)
    why = []
    for x in FIELDS:
        if end[x] != before[x] and s2.decide(mk_eq(end[x], before[x])) is not True:
            why.append('%s: %s -> %s' % (x, short(before[x]), short(end[x])))
    want = 1 if mode == 'root' and kind == 'known' else 0
    if depth_of(end['stack'], before['stack']) != want:
        why.append('element stack: %s entries more' % depth_of(end['stack'], before['stack']))
    if depth_of(end['chars'], before['chars']) != 0 and depth_of(shape(end['chars']), shape(before['chars'])) != 0:
        why.append('text stack: %s entries more' % depth_of(end['chars'], before['chars']))
    if why:
        c.bad('U1', key, where(fe), 'closing an element leaves the reader in another state than before it was opened: ' + '; '.join(why))
    else:
        c.ok('U1', key)
    evs = s2.trace
    if kind == 'known':
        adds = [e for e in evs if e[0] == 'AddElement']
        selfp = [e for e in adds if e[1] == E and e[2] == E]
        toP = [e for e in adds if e[1] == P and e[2] == E]
        obs = [e for e in evs if e[0] == 'Ob']
        veto = s2.decide(T('obret', 'EndElement')) is False or s2.decide(mk_nz(T('obret', 'EndElement'))) is False
        other = [e for e in adds if e not in selfp and e not in toP] + [e for e in evs if e[0] == 'AddUnknownElement']
        if other or len(selfp) > 1:
            c.bad('U2', key, where(fe), 'closing a known element also does %s' % [e[0] for e in other or selfp])
            return
        cd = s2.mem.get(('m', E, 'kmldom::Element::char_data_'))
        if cd is None or not mentions(cd, lambda y: y == CONTENT):
            c.bad('U2', key + ' text', where(fe), 'the text of a known element is not given to it')
        else:
            c.ok('U2')
        if mode == 'root':
            if toP or obs:
                c.bad('U2', key, where(fe), 'the root element is handed on')
            else:
                c.ok('U2', key)
            return
        exp = 0 if veto else 1
        if len(toP) != exp:
            c.bad('U2', key, where(fe), 'a known element is handed to its parent %d times%s' % (len(toP), ' although an observer took it' if veto else ''))
        else:
            c.ok('U2', key)
        seq = [e[1] if e[0] == 'Ob' else 'add' for e in evs if e[0] == 'Ob' or (e[0] == 'AddElement' and e[1] == P)]
        if seq == (['EndElement', 'AddChild'] if veto else ['EndElement', 'add', 'AddChild']) and all(e[3:] == (P, E) for e in obs):
            c.ok('U6', key)
        else:
            c.bad('U6', key, where(fe), 'at the end of a child the observer sees %s' % seq)
        stop = [e for e in evs if e[0] == 'Stop']
        refuse = s2.decide(T('obret', 'AddChild')) is False or s2.decide(mk_nz(T('obret', 'AddChild'))) is False
        if bool(stop) == bool(refuse):
            c.ok('U5')
        else:
            c.bad('U5', key + ' AddChild', where(fe), 'an observer %s a child and the parser is %s' % ('refuses' if refuse else 'accepts', 'stopped' if stop else 'not stopped'))
        return
    # text kinds: unknown element or child of an old-style placemark
    unk = [e for e in evs if e[0] == 'AddUnknownElement']
    others = [e for e in evs if e[0] in ('AddElement', 'Ob')]
    if others:
        c.bad('U3', key, where(fe), 'closing an unknown element does %s' % [e[0] for e in others])
        return
    if end['in_old_schema_placemark_'] != after['in_old_schema_placemark_'] or (before['skip_depth_'] == after['skip_depth_']):
        # child of an old-style placemark: its text goes to the SimpleData
        if unk:
            c.bad('U3', key, where(fe), 'a child of an old-style placemark is also kept as unknown')
        else:
            c.ok('U3', key + ' simple data')
        return
    whole = None
    if before['skip_depth_'] == ZERO:
        if len(unk) != 1 or unk[0][1] != P:
            c.bad('U3', key, where(fe), 'an unknown element is handed to its parent %d times' % len(unk))
            return
        whole = unk[0][2]
    else:
        if unk:
            c.bad('U3', key, where(fe), 'an element inside an unknown element is handed on by itself')
            return
        whole = text_top(end['chars'])
    ps = [x for x in parts(whole)]
    if ps and ps[0] == T('TXT'):
        ps = ps[1:]
    if tag_shape(ps, name, na, after['in_description_'] == ZERO):
        c.ok('U3', key)
    else:
        c.bad('U3', key, where(fe), 'the kept text of an unknown element is %s' % ' + '.join(short(x) for x in ps)[:300])


def shape(v):
    """text stack without its texts"""
    if v[0] == 't' and v[1] == 'vapp':
        return T('vapp', shape(v[2]), ONE)
    if v[0] == 'vec':
        return ('vec', tuple(ONE for _ in v[1]))
    return v


def tag_shape(ps, name, na, escaped):
    """'<' name attributes '>' content '</' name '>'"""
    flat = []
    for p in ps:
        flat += list(p[1]) if p[0] == 's' else [CONTENT] if p == T('esc', 'EscapeXml', CONTENT) and escaped else [p]
    while flat and flat[-1] == '\n':
        flat.pop()
    nm = list(name[1]) if name[0] == 's' else [name]
    want = ['<'] + nm
    for i in range(na):
        a, v = ATTRS[2][1][2 * i:2 * i + 2]
        want += [' ', a, '=', '"', T('esc', 'EscapeXmlAttribute', v) if escaped else v, '"']
    want += ['>', CONTENT, '<', '/'] + nm + ['>']
    return flat == want
