"""The XML that is written: escaping of text and attribute values, and the tag protocol of the XML serializer."""
import re
from rt import *
import harness
from children import short
from typeid import where
from textfold import charmap, absent, lacks, NotUnderstood, parts

VALUE = T('VALUE')
ENT = {'&amp;': '&', '&lt;': '<', '&gt;': '>', '&apos;': "'", '&quot;': '"'}
X = T('OBJ', 'X')
OUT = T('OBJ', 'OUT')


def decode(t):
    """text -> what an XML parser reads, None if it would be markup"""
    out = ''
    i = 0
    while i < len(t):
        c = t[i]
        if c == '&':
            j = t.find(';', i)
            if j < 0:
                return None
            e = t[i:j + 1]
            if e in ENT:
                out += ENT[e]
            else:
                m = re.fullmatch(r'&#(x[0-9a-fA-F]+|[0-9]+);', e)
                if not m:
                    return None
                out += chr(int(m.group(1)[1:], 16) if m.group(1)[0] == 'x' else int(m.group(1)))
            i = j + 1
            continue
        if c == '<':
            return None
        out += c
        i += 1
    return out


class Esc(DomClient):
    """keeps the escaping functions symbolic"""
    def __init__(self, deep=()):
        super().__init__()
        self.deep = deep

    def call2(self, ip, st, fr, f, this, args, node):
        base = f['qn'].split('<')[0]
        if base in ('kmlbase::EscapeXml', 'kmlbase::EscapeXmlAttribute') and base not in self.deep:
            return [(st, T('esc', base[9:], models.valarg(ip, st, f, 0, args)))]
        return None


def run(chk, db):
    d = Dom(db)
    chk.rule('W1', 'the escaping of text maps each character to something an XML parser reads as that character, in any context the text is put in')
    chk.rule('W2', 'text is written raw only if it holds no markup, in a CDATA section only if the section can hold it, and otherwise escaped')
    chk.rule('W3', 'attributes are written each once as name="escaped value"')
    chk.rule('W4', 'the XML writer closes what it opened: each call writes the pending start tag first, and exactly its own tags and content')
    chk.rule('W5', 'the string sink appends exactly what it is given')
    chk.rule('W6', 'every element writes one start (with its own type) first, its content, and one end last')
    chk.rule('W7', 'only the kept text of unknown elements is written without escaping')
    chk.rule('W8', 'serializing nothing gives an empty text, anything else the whole element through the XML writer')
    for part in (escaping, quoting, attrs, writer, sink, brackets, entry):
        harness.guard(chk, part.__name__, part, chk, d)
    return dict(writer_instances=len(writers(d)), element_classes=len(d.concrete_classes()))


def escaping(chk, d):
    for qn, must in (('kmlbase::EscapeXml', '&<>\r'), ('kmlbase::EscapeXmlAttribute', '&<"\t\n\r')):
        if not d.db.by_qn.get(qn):
            continue
        f = d.fn1(qn)
        ip = Interp(d.db, DomClient())
        st = State()
        rs = ip.run(f, None, [('p', ip.tmp(st, VALUE))], st)
        for s, v in rs:
            try:
                m = charmap(ip, s, v, VALUE)
            except NotUnderstood as e:
                chk.unk('W1', qn, e)
                continue
            for code, t in m.items():
                c = chr(code)
                r = decode(t)
                if r != c or (c in must and t == c):
                    chk.bad('W1', '%s %r' % (qn, c), where(f), 'character %r is escaped as %r, which reads back as %r' % (c, t, r if t != c else 'something else'))
                else:
                    chk.ok('W1', '%s %d' % (qn, code))


def quoting(chk, d):
    f = d.fn1('kmldom::Serializer::MaybeQuoteString')
    ip = Interp(d.db, Esc())
    st = State()
    n = 0
    for s, v in ip.run(f, T('OBJ', 'SER'), [('p', ip.tmp(st, VALUE))], st):
        n += 1
        ps = parts(v)
        key = 'path returning ' + ' '.join(short(p) for p in ps)
        chars, subs, other = absent(s.facts, VALUE)
        if ps == [VALUE]:
            miss = [w for w in ('&', '<', '\r', ']]>') if not lacks(chars, subs, w)]
            how = 'as it is'
        elif len(ps) == 3 and ps[0] == ('s', '<![CDATA[') and ps[1] == VALUE and ps[2] == ('s', ']]>'):
            miss = [w for w in (']]>', '\r') if not lacks(chars, subs, w)]
            how = 'in a CDATA section'
        elif ps == [T('esc', 'EscapeXml', VALUE)] or ps == [T('esc', 'EscapeXmlAttribute', VALUE)]:
            miss = []
            how = 'escaped'
        elif mentions(v, lambda y: y[:2] in (('t', 'lw'), ('t', 'strexp'))) or other:
            chk.unk('W2', key, 'text built in a way the analysis does not follow')
            continue
        else:
            chk.bad('W2', key, where(f), 'text is written as %s' % key)
            continue
        if not miss:
            chk.ok('W2', key)
        elif any(mentions(o, lambda y: y[:2] in (('t', 'lw'), ('t', 'iv'))) for o in other):
            chk.unk('W2', key, 'condition the analysis does not follow')
        else:
            chk.bad('W2', key, where(f), 'text is written %s although it may hold %s' % (how, ', '.join(repr(m) for m in miss)))


def attrs(chk, d):
    f = d.fn1('kmlbase::Attributes::Serialize')
    ip = Interp(d.db, Esc())
    A = T('OBJ', 'A')
    st = State()
    st.cls[A] = 'kmlbase::Attributes'
    st.assume(mk_nz(A), True)
    o = ('v', 'glob', 'out')
    st.mem[o] = ('s', '')
    N1, V1, N2, V2 = T('N1'), T('V1'), T('N2'), T('V2')
    for n in (0, 1, 2):
        ip = Interp(d.db, Esc())
        s0 = st.copy()
        m = models.EMPTYMAP
        s0.mem[('m', A, 'kmlbase::Attributes::attributes_map_')] = T('ATTRMAP')
        s0.assume(mk_eq(mk_size(T('ATTRMAP')), ('c', n)), True)
        break
    # the general case: one arbitrary iteration
    ip = Interp(d.db, Esc())
    s0 = st.copy()
    s0.mem[('m', A, 'kmlbase::Attributes::attributes_map_')] = T('ATTRMAP')
    okl = False
    for s, _ in ip.run(f, A, [('p', o)], s0):
        v = s.mem[o]
        if v == ('s', ''):
            continue
        if v[:2] != ('t', 'lw'):
            chk.unk('W3', 'loop', 'attribute text not built by one loop')
            continue
        rec = ip.loops.get(v[2][:-1])
        for y in rec['back']:
            nv = y.mem.get(v[2][-1])
            flat = flat_text(nv)
            if flat[0] != v:
                chk.unk('W3', 'iteration', 'attribute text rebuilt')
                continue
            flat = flat[1:]
            txt = ''
            terms = []
            for p in flat:
                if isinstance(p, str):
                    txt += p
                else:
                    txt += chr(0xE000 + len(terms))
                    terms.append(p)
            k = re.fullmatch('[ \n\t]+(\ue000)=(["\'])(\ue001)(["\'])', txt)
            if not k or k.group(2) != k.group(4):
                chk.bad('W3', 'shape', where(f), 'an attribute is written as %r' % txt)
                continue
            a, b = terms
            if b[:3] == ('t', 'esc', 'EscapeXmlAttribute'):
                chk.ok('W3', 'escaped')
            else:
                chk.bad('W3', 'escaping', where(f), 'the value of an attribute is written as %s, not escaped' % short(b))
                continue
            if is_proj(a, 0) and is_proj(b[3], 1) and strip_proj(a) == strip_proj(b[3]):
                chk.ok('W3', 'name and value')
            elif is_proj(a, 1) or is_proj(b[3], 0):
                chk.bad('W3', 'name and value', where(f), 'name and value of an attribute are mixed up')
            else:
                chk.unk('W3', 'name and value', short(a) + ' / ' + short(b[3]))


def is_proj(t, i):
    return t[0] == 't' and t[1] == 'fld' and t[3] == 'pair::' + ('first', 'second')[i]


def strip_proj(t):
    return t[2]


def flat_text(v):
    out = []
    for p in parts(v):
        if p[0] == 's':
            out += list(p[1])
        else:
            out.append(p)
    return out


# ---- the XML writer -----------------------------------------------------------------------------
def writers(d):
    out = {}
    for f in d.db.functions.values():
        c = f.get('cls', '')
        if c.startswith('kmldom::XmlSerializer<') and 'body' in f:
            out.setdefault(c, {})[f['n']] = f
    return out


class Wr(DomClient):
    def call2(self, ip, st, fr, f, this, args, node):
        n, cls = f['n'], f.get('cls', '')
        if this == OUT and n in ('write', 'put', 'operator<<') or (n == 'operator<<' and args and args[0] == OUT):
            if n == 'put':
                t = models.chr_str(args[0])
            elif n == 'write':
                t = models.strn(models.valarg(ip, st, f, 0, args), args[1])
            else:
                t = models.valarg(ip, st, f, len(args) - 1, args)
            st.trace = st.trace + (('W', t),)
            return [(st, OUT)]
        if n == 'MaybeQuoteString':
            return [(st, T('quoted', models.valarg(ip, st, f, 0, args)))]
        if cls == 'kmldom::Xsd' and n == 'ElementName':
            return [(st, ('p', ip.tmp(st, T('name', args[0]))) if ip.ty(f['ret']).get('ref') else T('name', args[0]))]
        if cls == 'kmlbase::Attributes' and n == 'GetSize':
            return [(st, T('nattrs'))]
        if cls == 'kmlbase::Attributes' and n == 'Serialize':
            l = ip.deref_loc(args[0])
            ip.store(st, l, models.mk_cat(ip.load(st, l), T('serattrs')), fr, node)
            return [(st, VOID)]
        return None


def tokens(tr, base):
    """trace of writes -> text over characters and symbols"""
    out = []
    for it in tr:
        if it[0] == 'W':
            for p in flat_text(it[1]):
                if p in (T('init', ('m', X, base + '::newline_')), T('init', ('m', X, base + '::indent_'))):
                    out.append('W')
                else:
                    out.append(p)
        elif it[0] == 'loop':
            for body in it[2]:
                for b in body:
                    if b[0] != 'W' or any(p != T('init', ('m', X, base + '::indent_')) for p in flat_text(b[1])):
                        return None
            out.append('W')
        else:
            return None
    return out


TOP, ST0, ATT = T('TOPTYPE'), T('ST0'), T('SERATT')
SYM = {}


def render(toks):
    """tokens to a string: W for optional white space, other symbols by private characters"""
    if toks is None:
        return None
    s = ''
    for t in toks:
        if t == 'W':
            s += '\u00b7'
        elif isinstance(t, str):
            s += t
        else:
            if t not in SYM:
                SYM[t] = chr(0xE100 + len(SYM))
            s += SYM[t]
    return s


def sym(t):
    if t not in SYM:
        SYM[t] = chr(0xE100 + len(SYM))
    return SYM[t]


def writer(chk, d):
    ws = '[\u00b7\n]*'
    for C, ms in sorted(writers(d).items()):
        short_c = C.split('::')[-1]

        def go(n, args, pending, at, root=False):
            ip = Interp(d.db, Wr())
            st = State()
            st.cls[X] = C
            st.assume(mk_nz(X), True)
            st.assume(mk_nz(OUT), True)
            st.cls[OUT] = 'OUT'
            b = C
            st.mem[('m', X, b + '::output_')] = OUT
            st.mem[('m', X, b + '::start_pending_')] = ONE if pending else ZERO
            st.mem[('m', X, b + '::serialized_attributes_')] = at
            if at != ('s', ''):
                st.assume(mk_nz(mk_size(at)), True)
            st.mem[('m', X, b + '::tag_stack_')] = ('vec', ()) if root else T('vapp', ST0, TOP)
            aa = args(ip, st) if callable(args) else args
            r = []
            for s, v in ip.run(ms[n], X, aa, st):
                r.append((s, render(tokens(s.trace, b)), s.mem[('m', X, b + '::start_pending_')], s.mem[('m', X, b + '::serialized_attributes_')],
                          s.mem[('m', X, b + '::tag_stack_')]))
            return r
        TY, V = T('TY'), T('V')

        def ref(v):
            return lambda ip, st: [('p', ip.tmp(st, v))]
        for pending, at in ((False, ('s', '')), (True, ('s', '')), (True, ATT)):
            tag = 'pending %s' % ('with attributes' if at == ATT else 'yes' if pending else 'no')
            flush = '<%s%s>%s' % (sym(T('name', TOP)), sym(at) if at == ATT else '', ws) if pending else ''
            stack = T('vapp', ST0, TOP)

            def judge(n, key, res, pat, wstack=stack, wpend=ZERO, watt=('s', ''), extra=None):
                k = '%s %s, %s' % (short_c, key, tag)
                if not res:
                    chk.unk('W4', k, 'no path')
                for s, txt, p, a, stk in res:
                    pp = pat(s) if callable(pat) else pat
                    if txt is None:
                        chk.unk('W4', k, 'output not followed')
                        continue
                    if not re.fullmatch(pp, txt):
                        chk.bad('W4', k, where(ms[n]), 'writes %s' % show(txt))
                        continue
                    wa = watt(s) if callable(watt) else watt
                    bad = []
                    if p != wpend and s.decide(mk_nz(p)) is not (wpend == ONE):
                        bad.append('a start tag is %s pending' % ('still' if wpend == ZERO else 'not'))
                    if stk != wstack:
                        bad.append('the tag stack is %s' % short(stk))
                    if a != wa and s.decide(mk_nz(mk_size(a))) is not False:
                        bad.append('attributes left over: %s' % short(a))
                    if bad:
                        chk.bad('W4', k, where(ms[n]), '; '.join(bad))
                    else:
                        chk.ok('W4', k)
            has = lambda s: s.decide(mk_nz(T('nattrs'))) is not False
            judge('BeginById', 'start tag', go('BeginById', [TY, T('OBJ', 'ATTRS')], pending, at), flush + ws,
                  T('vapp', stack, TY), ONE, lambda s: T('serattrs') if has(s) else ('s', ''))
            if not pending:
                judge('BeginById', 'start tag of the root', go('BeginById', [TY, T('OBJ', 'ATTRS')], pending, at, True), ws,
                      ('vec', (TY,)), ONE, lambda s: T('serattrs') if has(s) else ('s', ''))
            nm = sym(T('name', TOP))
            att = sym(at) if at == ATT else ''
            judge('End', 'end tag', go('End', [], pending, at),
                  ('(<%s%s/>|<%s%s>%s</%s>)%s' % (nm, att, nm, att, ws, nm, ws)) if pending else '%s</%s>%s' % (ws, nm, ws), ST0)
            fn = sym(T('name', TY))
            q = sym(T('quoted', V))

            def fpat(s):
                e = s.decide(mk_nz(mk_size(V)))
                full = '%s%s<%s>%s</%s>%s' % (flush, ws, fn, q, fn, ws)
                nil = '%s%s(<%s/>|<%s></%s>)%s' % (flush, ws, fn, fn, fn, ws)
                return full if e is True else '(%s|%s)' % (full, nil) if e is False else full
            judge('SaveStringFieldById', 'field', go('SaveStringFieldById', [TY, V], pending, at), fpat)
            judge('SaveContent', 'content', go('SaveContent', lambda ip, st: [('p', ip.tmp(st, V)), ONE], pending, at), flush + q)
            judge('SaveContent', 'raw content', go('SaveContent', lambda ip, st: [('p', ip.tmp(st, V)), ZERO], pending, at), flush + sym(V))
            if 'SaveVec3' in ms:
                def v3(ip, st):
                    o = T('OBJ', 'V3')
                    st.cls[o] = 'kmlbase::Vec3'
                    return [o]
                res = go('SaveVec3', v3, pending, at)
                comp = [T('tostr', 'double', x) for x in vec3_terms(d)]

                def vpat(s):
                    return '%s%s%s,%s,%s[\u00b7\n]+' % ((flush, ws) + tuple(sym(c) for c in comp))
                judge('SaveVec3', 'coordinates', res, vpat)
                for s, txt, *_ in res:
                    if txt is not None and not txt.endswith('\n') and s.decide(mk_nz(mk_size(T('init', ('m', X, C + '::newline_'))))) is not True:
                        chk.bad('W4', short_c + ' separator', where(ms['SaveVec3']), 'two coordinate tuples may be written without white space between them')
                    else:
                        chk.ok('W4')
        # a new writer
        ip = Interp(d.db, Wr())
        st = State()
        st.cls[X] = C
        f = ms.get(C.split('<')[0].split('::')[-1])
        if f:
            fr = Frame(('top',), {'qn': '<entry>', 'file': '', 'ret': 0}, None, None)
            for s, _ in ip.invoke(st, f, X, [('s', '\n'), ('s', '  '), OUT], fr, None):
                g = lambda n: s.mem.get(('m', X, C + '::' + n))
                if g('start_pending_') == ZERO and g('serialized_attributes_') in (None, ('s', '')) and g('tag_stack_') in (None, ('vec', ())) \
                        and g('output_') == OUT and g('newline_') == ('s', '\n') and g('indent_') == ('s', '  '):
                    chk.ok('W4', short_c + ' new')
                else:
                    chk.bad('W4', short_c + ' new', where(f), 'a new XML writer does not start with nothing open')


def vec3_terms(d):
    """longitude, latitude, altitude of a coordinate tuple, as the class returns them"""
    out = []
    for n in ('get_longitude', 'get_latitude', 'get_altitude'):
        f = d.fn1('kmlbase::Vec3::' + n)
        ip = Interp(d.db, Wr())
        st = State()
        o = T('OBJ', 'V3')
        st.cls[o] = 'kmlbase::Vec3'
        out.append(ip.run(f, o, [], st)[0][1])
    return out


def show(t):
    back = {v: k for k, v in SYM.items()}
    return ''.join(('{%s}' % short(back[c])) if c in back else c.replace('\u00b7', ' ') for c in t)


def sink(chk, d):
    A = T('OBJ', 'SA')
    for n, mk in (('write', lambda: [T('DATA'), T('LEN')]), ('put', lambda: [T('CHR')])):
        f = d.fn1('kmldom::StringAdapter::' + n)
        ip = Interp(d.db, DomClient())
        st = State()
        st.cls[A] = 'kmldom::StringAdapter'
        o = ('v', 'glob', 'str')
        st.mem[o] = T('OLD')
        st.mem[('m', A, 'kmldom::StringAdapter::str_')] = ('p', o)
        want = models.mk_cat(T('OLD'), T('strn', T('DATA'), T('LEN')) if n == 'write' else T('ch', T('CHR')))
        for s, _ in ip.run(f, A, mk(), st):
            if s.mem[o] == want:
                chk.ok('W5', n)
            else:
                chk.bad('W5', n, where(f), 'the string sink turns the text into %s' % short(s.mem[o]))


# ---- elements ---------------------------------------------------------------------------------
class Br(DomClient):
    """typestate of one Serialize call: 0 before the start tag, 1 inside, 2 after the end tag"""
    def call(self, ip, st, fr, f, this, args, node):
        self.seen = []
        t0 = st.trace
        self.want = lambda ev: self.seen.append(ev) or False
        r = super().call(ip, st, fr, f, this, args, node)
        if self.seen:
            for ev in self.seen:
                self.step(r[0][0], ev)
        return r

    def step(self, st, ev):
        ts = st.ts if isinstance(st.ts, tuple) and st.ts else ('b', 0)
        d = ts[1]
        n = ev[0]
        if n == 'BeginById':
            st.trace = st.trace + (('Begin', ev[1], d),)
            d += 1
        elif n == 'End':
            d -= 1
            st.trace = st.trace + (('End', d),)
        elif n in ('Emit', 'Field', 'SaveContent', 'SaveVec3', 'SaveSimpleVec3') and d == 0:
            e = ('Outside', n, ev[1])
            if e not in st.trace:
                st.trace = st.trace + (e,)
        if n == 'SaveContent' and ev[2] != ONE:
            e = ('Raw', ev[1])
            if e not in st.trace:
                st.trace = st.trace + (e,)
        st.ts = ('b', d)


def brackets(chk, d):
    inv = {}
    for t, c in d.classes().items():
        inv.setdefault(c, t)
    items = sorted(d.classes().items())

    def work(c, item):
        t, C = item
        cl = Br()
        ip = Interp(d.db, cl, budget=900000)
        st = State()
        P = d.unknown_object(st, 'P', C)
        for s0 in [st]:
            pass
        cl.roots = (P,)
        # the exact element type (one class may serve several types)
        mk = State()
        o = ('o', 1)
        mk.cnt = 1
        tp = None
        ms, _ = d.make(Interp(d.db, DomClient()), mk, t, o)
        for m0 in ms:
            for k, v in m0.mem.items():
                if k[0] == 'm' and k[1] == o and v[0] == 'c' and k[2].endswith('type_id_'):
                    st.mem[('m', P, k[2])] = v
        f = d.db.functions.get(ip.lookup(C, 'Serialize', 1))
        key = d.tname[t][5:]
        wh = where(f) if f else C
        for s, _ in ip.call_virtual(st, 'Serialize', C, P, [S]):
            ev = []
            for e, lp, kind in flat(s.trace):
                if kind == 'loop':
                    for body in e[2]:
                        for b in body:
                            ev.append(('L',) + b)
                else:
                    ev.append(e)
            c.notes['paths'] = c.notes.get('paths', 0) + 1
            raws = [e for e in ev if e[0] == 'Raw' or e[:2] == ('L', 'Raw')]
            for e in raws:
                x = e[-1]
                if x[0] == 't' and x[1] == 'at' and mentions(x[2], lambda y: isinstance(y, str) and y.endswith('unknown_elements_array_') or
                                                            (isinstance(y, tuple) and len(y) == 3 and y[0] == 'm' and str(y[2]).endswith('unknown_elements_array_'))):
                    c.ok('W7', key)
                else:
                    c.bad('W7', key, wh, '%s is written without escaping' % short(x))
            ev = [e for e in ev if e not in raws]
            want = [('Begin', ('c', t), 0), ('End', 0)]
            if ev == want:
                c.ok('W6', key)
            else:
                c.bad('W6', key, wh, 'writing the element gives %s' % '; '.join(describe(d, e) for e in ev)[:200] or 'nothing')
    harness.parallel(chk, items, work)


def describe(d, e):
    if e[0] == 'Begin':
        return 'start tag %s%s' % (d.tname.get(e[1][1], '?')[5:] if e[1][0] == 'c' else short(e[1]), ' inside another' if e[2] else '')
    if e[0] == 'End':
        return 'end tag' + (' of an inner element' if e[1] > 0 else ' too many' if e[1] < 0 else '')
    if e[0] == 'Outside':
        return '%s outside the element' % e[1]
    return short(e)


def entry(chk, d):
    for qn in ('kmldom::SerializePretty', 'kmldom::SerializeRaw'):
        f = d.fn1(qn)

        class C(DomClient):
            def call2(self, ip, st, fr, g, this, args, node):
                if g['n'] == 'Serialize' and g.get('virt') and this == T('ROOT'):
                    w = args[0]
                    o = ip.load(st, ('m', w, writer_cls(st, w) + '::output_')) if writer_cls(st, w) else None
                    st.trace = st.trace + (('ser', writer_cls(st, w)),)
                    l = None
                    if o is not None:
                        l = ip.load(st, ('m', o, 'kmldom::StringAdapter::str_'))
                    if l is not None and l[0] == 'p':
                        ip.store(st, l[1], T('XML'), fr, node)
                    return [(st, VOID)]
                return None
        for nul in (True, False):
            ip = Interp(d.db, C())
            st = State()
            r = ZERO if nul else T('ROOT')
            if not nul:
                st.cls[r] = 'kmldom::Element'
                st.assume(mk_nz(r), True)
            for s, v in ip.run(f, None, [('p', ip.tmp(st, r))], st):
                if nul:
                    good = v == ('s', '') and not s.trace
                else:
                    good = v == T('XML') and len(s.trace) == 1
                if good:
                    chk.ok('W8', qn + (' null' if nul else ''))
                elif not nul and (v[0] != 's' and v != T('XML')):
                    chk.unk('W8', qn, short(v))
                else:
                    chk.bad('W8', qn + (' null' if nul else ''), where(f), 'returns %s' % short(v))


def writer_cls(st, w):
    a = w
    c = st.cls.get(a)
    if c is None and a[0] == 'p':
        c = st.cls.get(('p', a[1]))
    return c
