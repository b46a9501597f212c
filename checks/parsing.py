"""Entry points of parsing: the document is parsed whole, its result is handed out only when the XML parser accepted all
of it, failures come with a message, entity declarations stop the parse, the XML parser is released."""
from eng import *
import harness
from harness import guard

EH = 'kmlbase::ExpatHandler'
PARSER = EH + '::parser_'
ENTRY_CLS = 'kmlbase::ExpatParser'


class Cl(EngClient):
    """model of the expat API"""
    def call(self, ip, st, fr, f, this, args, node):
        n = f['n']
        if n.startswith('XML_') and f['kind'] == 'fn':
            return self.xml(ip, st, fr, f, n, args, node)
        if n == 'PopRoot' and ip.is_sub(f.get('cls', ''), EH):
            st.trace = st.trace + (('Root', this),)
            return [(st, T('root', this))]
        if f['qn'] in self.stop:
            v = self.vals(ip, st, f, args)
            return [(st, T('opaque', f['qn'], *v))]
        return super().call(ip, st, fr, f, this, args, node)

    stop = {'kmlengine::KmzFile::IsKmz', 'kmlengine::KmzFile::OpenFromString', 'kmlengine::KmzFile::ReadKml'}

    def xml(self, ip, st, fr, f, n, args, node):
        m = st.mem
        if n in ('XML_ParserCreate', 'XML_ParserCreateNS', 'XML_ParserCreate_MM'):
            st.cnt += 1
            h = T('XP', st.cnt)
            st.trace = st.trace + (('Create', h, n, args[1] if len(args) > 1 else None),)
            return [(st, h)]
        if n == 'XML_ParserFree':
            st.trace = st.trace + (('Free', args[0]),)
            return [(st, VOID)]
        if n == 'XML_SetUserData':
            m[('xml', args[0], 'user')] = args[1]
            return [(st, VOID)]
        if n.startswith('XML_Set') and n.endswith('Handler'):
            if n == 'XML_SetElementHandler':
                m[('xml', args[0], 'Start')] = args[1]
                m[('xml', args[0], 'End')] = args[2]
            elif n == 'XML_SetNamespaceDeclHandler':
                m[('xml', args[0], 'StartNs')] = args[1]
                m[('xml', args[0], 'EndNs')] = args[2]
            elif n in ('XML_SetStartElementHandler', 'XML_SetEndElementHandler'):
                m[('xml', args[0], n[7:-14])] = args[1]
            else:
                m[('xml', args[0], n[7:-7])] = args[1]
            return [(st, VOID)]
        if n in ('XML_Parse', 'XML_ParseBuffer'):
            h = args[0]
            conf = tuple(sorted((k[2], v) for k, v in m.items() if k[0] == 'xml' and k[1] == h))
            user = m.get(('xml', h, 'user'))
            hp = self.handlers(ip, st, user)
            if n == 'XML_Parse':
                data, ln, fin = args[1], args[2], args[3]
            else:
                data, ln, fin = T('buffer', h), args[1], args[2]
            out = []
            st.cnt += 1
            code = st.cnt
            for name, val in (('ok', 1), ('error', 0), ('suspended', 2)):
                x = st.copy()
                x.trace = x.trace + (('Parse', h, data, ln, fin, conf, hp, name),)
                x.mem[('xml', h, 'last')] = T('status', ('c', val), code)
                out.append((x, ('c', val)))
            return out
        if n == 'XML_GetBuffer':
            st.cnt += 1
            return [(st, T('xbuf', args[0], args[1], st.cnt))]
        if n == 'XML_StopParser':
            st.trace = st.trace + (('Stop', args[0], args[1]),)
            return [(st, ONE)]
        if n == 'XML_GetParsingStatus':
            st.cnt += 1
            loc = ip.deref_loc(args[1])
            t = T('pstatus', args[0], st.cnt)
            ip.store(st, ('m', ip.addr(loc), 'XML_ParsingStatus::parsing'), t, fr, node)
            return [(st, VOID)]
        if n == 'XML_ErrorString':
            return [(st, T('errstr', args[0]))]
        return [(st, T(n, *args))]

    def handlers(self, ip, st, user):
        """every handler the events reach, with the parser it would stop"""
        out, todo, seen = [], [user], set()
        while todo:
            u = todo.pop()
            if u is None or u in seen or u[0] not in ('p', 'o', 't'):
                continue
            seen.add(u)
            out.append((u, st.mem.get(('m', u, PARSER))))
            for k, v in list(st.mem.items()):
                if k[0] == 'm' and k[1] == u and k[2].endswith('expat_handler_') and not k[2].startswith('kmlbase::ExpatParser'):
                    todo.append(v)
        return tuple(out)


def entries(db):
    """functions that drive the XML parser class from outside of it"""
    out = []
    for i, f in db.functions.items():
        if 'body' not in f or f.get('cls') == ENTRY_CLS or '_test' in f['file'] or f.get('tmpl'):
            continue
        if uses(db, f):
            out.append(i)
    return sorted(out, key=lambda i: db.functions[i]['qn'])


def uses(db, f):
    st = [f['body']]
    while st:
        n = st.pop()
        if isinstance(n, dict):
            g = n.get('f')
            if isinstance(g, str) and g in db.functions and db.functions[g].get('cls') == ENTRY_CLS:
                return True
            st.extend(v for v in n.values() if isinstance(v, (dict, list)))
        elif isinstance(n, list):
            st.extend(v for v in n if isinstance(v, (dict, list)))
    return False


WRAP = ['kmldom::Parse', 'kmldom::ParseNS', 'kmldom::ParseKml', 'kmldom::ParseAtom',
        'kmlengine::KmlFile::CreateFromParse', 'kmlengine::KmlFile::CreateFromString', 'kmlengine::KmlFile::CreateFromStringWithUrl',
        'kmlengine::SplitStyles', 'kmlengine::InlineStyles', 'kmlengine::GetLinkParents']


def events(tr):
    for it in tr:
        if it[0] == 'loop' and isinstance(it[1], tuple):
            for body in it[2]:
                for x in events(body):
                    yield x
        elif it[0] == 'last' and len(it) == 2:
            for x in events(it[1]):
                yield x
        else:
            yield it


def textparam(ip, f):
    for i, p in enumerate(f['params']):
        t = ip.ty(p['t'])
        if 'basic_string' in t.get('s', '') and t.get('ref'):
            return i
    return None


def check_entry(chk, d, f):
    cl = Cl()
    ip = Interp(d.db, cl)
    st = State()
    this = None
    if f['kind'] == 'method' and not f.get('static'):
        this = T('OBJ', 'THIS')
        st.cls[this] = f['cls']
        st.assume(mk_nz(this), True)
    args = []
    TEXT, ERR = T('TEXT'), None
    ti = textparam(ip, f)
    for i, p in enumerate(f['params']):
        t = ip.ty(p['t'])
        if i == ti:
            args.append(('p', ip.tmp(st, TEXT)))
        elif t.get('k') == 'ptr' and 'basic_string' in t.get('s', '') and p.get('n', '').startswith('err'):
            ERR = ('v', 'glob', 'errors')
            st.mem[ERR] = T('OLDERR')
            args.append(('p', ERR))
        elif t.get('k') == 'ptr':
            o = T('OBJ', 'ARG%d' % i)
            st.assume(mk_nz(o), True)
            c = pointee_cls(t)
            if c in d.db.records:
                st.cls[o] = c
            args.append(o)
        elif t.get('ref'):
            args.append(('p', ip.tmp(st, T('ARG', i))))
        else:
            args.append(T('ARG', i))
    key = f['qn'].split('::', 1)[-1]
    w = where(f)
    pas = False
    for s, v in ip.run(f, this, args, st):
        ev = list(events(s.trace))
        parses = [e for e in ev if e[0] == 'Parse']
        pas = pas or bool(parses)
        # E5 lifecycle
        made = [e[1] for e in ev if e[0] == 'Create']
        freed = [e[1] for e in ev if e[0] == 'Free']
        if sorted(made) == sorted(freed):
            chk.ok('E5', key)
        else:
            chk.bad('E5', key, w, 'XML parsers created %d, released %d on a path (statuses %s)' % (len(made), len(freed), [e[-1] for e in parses]))
        gone = set()
        for e in ev:
            if e[0] == 'Free':
                gone.add(e[1])
            elif e[0] in ('Parse', 'Stop') and e[1] in gone:
                chk.bad('E5', key + ' use', w, 'the XML parser is used after it was released')
        # E4 configuration
        for e in parses:
            h, conf, hp = e[1], dict(e[5]), e[6]
            ns = [c for c in ev if c[0] == 'Create' and c[1] == h and c[2].endswith('NS')]
            for k in ('user', 'Start', 'End', 'CharacterData', 'EntityDecl'):
                if conf.get(k, ZERO) in (ZERO, UNDEF):
                    chk.bad('E4', key + ' ' + k, w, 'the XML parser runs without its %s set' % k)
                else:
                    chk.ok('E4', key)
            if ns and ns[0][3] != ('c', ord('|')):
                chk.bad('E4', key + ' separator', w, 'namespace-aware parser with an unexpected separator %s' % pp(ns[0][3]))
            for u, p in hp:
                if p == h:
                    chk.ok('E4', key)
                else:
                    chk.bad('E4', key + ' stop', w, 'a handler that stops the parse through get_parser() does not hold the running parser')
        # E2 whole input
        for e in parses:
            if e[2] == TEXT:
                if e[3] in (mk_size(TEXT), T('trunc', mk_size(TEXT), 32), T('trunc', mk_size(TEXT), ('c', 32))) or pp(e[3]).replace('trunc(', '').split(',')[0].rstrip(')') == 'size(TEXT':
                    chk.ok('E2', key)
                else:
                    chk.bad('E2', key, w, 'the XML parser is given %s bytes of the text' % pp(e[3]))
                if truth_of(e[4]) is True or (e[4][0] == 'c' and e[4][1] != 0):
                    chk.ok('E2', key)
                else:
                    chk.bad('E2', key + ' final', w, 'the whole text is not parsed as the final buffer (flag %s)' % pp(e[4]))
        # E1 result only on success, E3 message on failure
        if any(isinstance(it[1], tuple) and it[0] == 'loop' for it in s.trace) or any(rec['back'] and any(
                any(x[0] == 'Parse' for x in events(y.trace)) for y in rec['back']) for rec in ip.loops.values()):
            streaming(chk, ip, s, v, key, w, f)
            if ERR is not None and v == ZERO and parses and not any(k[:2] == ('t', 'lt') and b and mentions(k, lambda y: y[:2] == ('t', 'm.gcount')) for k, b in s.facts.items()):
                if s.mem.get(ERR) in (T('OLDERR'), ('s', '')) or s.mem.get(ERR) == T('lw', T('OLDERR')):
                    chk.bad('E3', key, w, 'a failed parse (%s) leaves no error message' % parses[-1][-1])
                else:
                    chk.ok('E3', key)
            continue
        if not parses:
            ok = s.decide(mk_nz(v))
            if ok is False or v == ZERO or v == VOID:
                chk.ok('E1', key)
            elif mentions(v, lambda y: y[:2] == ('t', 'root')) or v[0] == 'o':
                chk.bad('E1', key + ' unparsed', w, 'a result is returned although nothing was parsed')
            continue
        allok = all(e[-1] == 'ok' for e in parses)
        given = v
        if v[0] == 'o':      # a file object: its root
            rs = [x for k, x in s.mem.items() if k[0] == 'm' and k[1] == v and k[2].endswith('::root_')]
            given = rs[0] if rs else v
        reach = [u for e in parses for u, _ in e[6]]
        if allok:
            if given[:2] == ('t', 'root') and given[2] in reach:
                chk.ok('E1', key)
            elif given[:2] == ('t', 'root'):
                chk.bad('E1', key + ' other', w, 'the element returned is not the root the parsed events built')
            elif given == ZERO and s.decide(mk_nz(T('root', reach[0]))) is not False and not any(s.decide(mk_nz(T('root', u))) is False for u in reach) and f['ret'] != 0 and ip.ty(f['ret']).get('k') != 'bool' and not rooted(ip, s, reach):
                chk.bad('E1', key + ' lost', w, 'the parse succeeded and yet nothing is returned')
            else:
                chk.ok('E1', key)
        else:
            if v in (ZERO, VOID) or s.decide(mk_nz(v)) is False:
                chk.ok('E1', key)
            elif mentions(given, lambda y: y[:2] == ('t', 'root')) or v == ONE:
                chk.bad('E1', key + ' failed', w, 'a result is returned although the XML parser did not accept the text (%s)' % parses[-1][-1])
            else:
                chk.unk('E1', key, 'result %s' % pp(v)[:80])
            if ERR is not None:
                e = s.mem.get(ERR)
                if e == T('OLDERR') or e == ('s', ''):
                    chk.bad('E3', key, w, 'a failed parse (%s) leaves no error message' % parses[-1][-1])
                else:
                    chk.ok('E3', key)
    return pas


def rooted(ip, s, reach):
    return any(s.decide(mk_nz(T('root', u))) is False for u in reach)


def streaming(chk, ip, s, v, key, w, f):
    """a result assembled from several buffers: every continuing iteration was accepted, the last one was final"""
    if v == ZERO or s.decide(mk_nz(v)) is False:
        chk.ok('E1', key)
        return
    good = False
    for lid, rec in ip.loops.items():
        bodies = [[e for e in events(y.trace[len(rec['pre'].trace) if hasattr(rec['pre'], 'trace') else 0:]) if e[0] == 'Parse'] for y in rec['back']]
        if not any(bodies):
            continue
        for y in rec['back']:
            pe = [e for e in events(y.trace) if e[0] == 'Parse']
            if not pe or pe[-1][-1] != 'ok':
                chk.bad('E1', key + ' goes on', w, 'reading goes on after a buffer was not accepted')
                return
        # a variable that carries the final flag out of the loop
        for k, x in rec['back'][0].mem.items():
            lw = T('lw', lid + (k,))
            known = s.facts.get(mk_nz(lw))
            if known is None:
                continue
            vals = [(y.mem.get(k), [e for e in events(y.trace) if e[0] == 'Parse'][-1][4], y) for y in rec['back']]
            if known is True and all(a == b or same(y, a, b) for a, b, y in vals) and truth_of(rec['pre'].get(k, ONE)) is False:
                good = True
            if known is False and all(mk_not(a) == b or mk_not(b) == a or same(y, mk_not(mk_nz(a)), b) for a, b, y in vals) and truth_of(rec['pre'].get(k, ZERO)) is True:
                good = True
        if good:
            break
        locs = [k for k in s.facts if k[:2] == ('t', 'nz') and k[2][:2] == ('t', 'lw') and k[2][2][:-1] == lid]
        if locs:
            chk.unk('E1', key, 'how the final buffer is recognised is not understood')
        else:
            chk.bad('E1', key + ' unfinished', w, 'a result is returned without knowing that the final buffer was parsed')
        return
    chk.ok('E1', key)


def same(y, a, b):
    if a is None or b is None:
        return False
    da, db_ = y.decide(mk_nz(a)), y.decide(mk_nz(b))
    return da is not None and da == db_


def callbacks(chk, d):
    """the C callbacks installed in the parser"""
    cl = Cl()
    ip = Interp(d.db, cl)
    st = State()
    H = T('OBJ', 'H')
    st.cls[H] = EH
    st.assume(mk_nz(H), True)
    ctor = None
    for m in d.db.records[ENTRY_CLS]['methods']:
        g = d.db.functions[m]
        if g['kind'] == 'ctor' and len(g['params']) == 2 and 'body' in g:
            ctor = g
    if ctor is None:
        raise AnalysisBroken('no parser constructor')
    O = T('OBJ', 'EP')
    st.cls[O] = ENTRY_CLS
    for x, _ in ip.run(ctor, O, [H, ONE], st):
        hs = {k[2]: v for k, v in x.mem.items() if k[0] == 'xml'}
        P = x.mem.get(('m', O, ENTRY_CLS + '::parser_'))
        created = [e[1] for e in x.trace if e[0] == 'Create']
        if P in created and x.mem.get(('m', H, PARSER)) == P:
            chk.ok('E4', 'constructor')
        else:
            chk.bad('E4', 'constructor', where(ctor), 'the parser object does not keep and share the parser it made')
        for kind, want in (('Start', 'StartElement'), ('End', 'EndElement'), ('CharacterData', 'CharData'), ('StartNs', 'StartNamespace'), ('EndNs', 'EndNamespace')):
            callback(chk, d, hs.get(kind), kind, want, H)
        entity(chk, d, hs.get('EntityDecl'), H)


class CbCl(Cl):
    def call(self, ip, st, fr, f, this, args, node):
        if f['qn'].startswith('kmlbase::xml_char_to_string') and f['kind'] == 'fn':
            if f['n'] == 'xml_char_to_string':
                return [(st, T('text', args[0]))]
            if f['n'] == 'xml_char_to_string_n':
                return [(st, T('textn', args[0], args[1]))]
            if f['n'] == 'xml_char_to_string_vec':
                ip.store(st, ip.deref_loc(args[1]), T('texts', args[0]), fr, node)
                return [(st, VOID)]
        if this == T('OBJ', 'H') and f['n'] in ('StartElement', 'EndElement', 'CharData', 'StartNamespace', 'EndNamespace') and f.get('virt'):
            st.trace = st.trace + ((f['n'],) + self.vals(ip, st, f, args),)
            return [(st, VOID)]
        return super().call(ip, st, fr, f, this, args, node)


def fnref(d, v):
    if v is not None and v[0] == 'f' and v[1] in d.db.functions:
        return d.db.functions[v[1]]
    return None


def callback(chk, d, v, kind, want, H):
    f = fnref(d, v)
    if f is None or 'body' not in f:
        chk.unk('E6', kind, 'callback not resolved')
        return
    cl = CbCl()
    ip = Interp(d.db, cl)
    st = State()
    st.cls[H] = EH
    st.assume(mk_nz(H), True)
    a = [H] + [T('A%d' % i) for i in range(1, len(f['params']))]
    exp = {'StartElement': (T('text', T('A1')), T('texts', T('A2'))), 'EndElement': (T('text', T('A1')),),
           'CharData': (T('textn', T('A1'), T('A2')),), 'StartNamespace': (T('text', T('A1')), T('text', T('A2'))),
           'EndNamespace': (T('text', T('A1')),)}[want]
    for s, _ in ip.run(f, None, a, st):
        tr = [(e[0],) + tuple(plain(x) for x in e[1:]) for e in s.trace]
        if tr == [(want,) + exp]:
            chk.ok('E6', kind)
        else:
            chk.bad('E6', kind, where(f), 'the XML event %s does not become exactly one %s with its text (%s)' % (kind, want, ', '.join(pp(e) for e in s.trace)[:160]))


def plain(t):
    """drop integer conversions"""
    if not isinstance(t, tuple):
        return t
    if len(t) >= 3 and t[0] == 't' and t[1] in ('trunc', 'cast', 'conv', 'sext', 'zext', 'wrap', 'u64'):
        return plain(t[2])
    return tuple(plain(x) for x in t)


def entity(chk, d, v, H):
    f = fnref(d, v)
    if f is None or 'body' not in f:
        chk.bad('E7', 'entity', 'kml/base/expat_parser.cc', 'entity declarations have no handler that stops the parse')
        return
    cl = CbCl()
    ip = Interp(d.db, cl)
    st = State()
    st.cls[H] = EH
    st.assume(mk_nz(H), True)
    P = T('RUNNING')
    st.mem[('m', H, PARSER)] = P
    for s, _ in ip.run(f, None, [H] + [T('A%d' % i) for i in range(1, len(f['params']))], st):
        stops = [e for e in s.trace if e[0] == 'Stop']
        if stops and stops[0][1] == P and stops[0][2] == ZERO:
            chk.ok('E7', 'entity')
        else:
            chk.bad('E7', 'entity', where(f), 'an entity declaration does not stop the running parser on a path (%s)' % (
                ', '.join(('' if b else '!') + pp(k) for k, b in s.facts.items() if k != mk_nz(H))[:120] or 'always'))


def run(chk, db):
    d = Dom(db)
    chk.rule('E1', 'an entry point returns the root element built by the events of this very parse, and only when the XML parser accepted every buffer up to the final one; otherwise nothing')
    chk.rule('E2', 'the XML parser is given the whole text, as the final buffer')
    chk.rule('E3', 'when the XML parser does not accept the text and the caller passed an error string, it is set')
    chk.rule('E4', 'while parsing, the handlers for elements, text and entity declarations and the user data are installed, and every handler that can stop the parse holds the running parser')
    chk.rule('E5', 'every XML parser created is released exactly once on every path and not used afterwards')
    chk.rule('E6', 'each XML event becomes exactly one call on the handler with the event\'s own text')
    chk.rule('E7', 'every entity declaration stops the parse')
    es = entries(db)
    ws = []
    for q in WRAP:
        ws += [i for i in db.by_qn.get(q, []) if 'body' in db.functions[i]]

    def work(c, i):
        if i == 'callbacks':
            guard(c, 'callbacks', callbacks, c, d)
        else:
            guard(c, db.functions[i]['qn'], check_entry, c, d, db.functions[i])
    d.classes()
    items = ['callbacks'] + list(dict.fromkeys(es + ws))
    harness.parallel(chk, items, work)
    return dict(entry_points=[db.functions[i]['qn'] for i in items[1:]])
