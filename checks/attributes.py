"""Attributes: what ParseAttributes takes out of an element's attribute list, SerializeAttributes puts back,
and everything it does not know is kept and written back."""
from rt import *
import harness
from children import short, conds, where_of
from accessors import A, props, truth, norm_rec, VAL

IN = T('OBJ', 'ATTRS_IN')
OUT = T('OBJ', 'ATTRS_OUT')
UA = 'kmldom::Element::unknown_attributes_'
XN = 'kmldom::Element::xmlns_'


class AttrClient(DomClient):
    def __init__(self):
        super().__init__()
        self.focus = None         # key whose presence is decided by self.present
        self.present = True
        self.text = None
        self.keys = set()

    def call2(self, ip, st, fr, f, this, args, node):
        cls = f.get('cls')
        if cls == 'kmldom::Element' and f['n'] == 'AddUnknownAttributes':
            st.trace = st.trace + (('Rest', args[0]),)
            return [(st, VOID)]
        if cls == 'kmldom::Element' and f['n'] == 'SerializeAttributes' and 'body' in f and f['params']:
            st.trace = st.trace + (('PutRest', args[0]),)
            return [(st, VOID)]
        if cls != 'kmlbase::Attributes' or this not in (IN, OUT):
            return None
        n = f['n']
        if this == IN and n in ('CutValue', 'GetValue', 'GetString', 'GetBool', 'GetDouble', 'FindValue'):
            key = models.valarg(ip, st, f, 0, args)
            self.keys.add(key)
            kind = typ_kind(ip.ty(f['params'][1]['t']))
            out = args[1]
            if key == self.focus:
                if not self.present:
                    return [(st, ZERO)]
                if st.mem.get(('cut', key)):
                    return [(st, ZERO)]
                st.trace = st.trace + (('Cut' if n == 'CutValue' else 'Peek', key),)
                if n == 'CutValue':
                    st.mem[('cut', key)] = ONE
                text = self.text if self.text is not None else CD
                res = []
                for x, b in ip.split(st, mk_nz(out), fr, node):
                    if b:
                        ip.store(x, ip.deref_loc(out), simp_parse(kind, text), fr, node)
                    res.append((x, ONE))
                return res
            ip.store(st, ip.deref_loc(out), T('cutval', key, kind), fr, node)
            return [(st, T('hasattr', key))]
        if this == OUT and n in ('SetValue', 'SetString'):
            key = models.valarg(ip, st, f, 0, args)
            pt = ip.ty(f['params'][1]['t'])
            v = models.valarg(ip, st, f, 1, args)
            v = simp_tostr(typ_kind(pt), v)
            ev = ('Set', key, v)
            if self.want(ev):
                st.trace = st.trace + (ev,)
            return [(st, VOID)]
        return None


def parse_run(d, C, focus, present, text=None):
    cl = AttrClient()
    ip = Interp(d.db, cl)
    cl.focus, cl.present, cl.text = focus, present, text
    st = State()
    P = d.unknown_object(st, 'P', C)
    st.cls[IN] = st.cls[OUT] = 'kmlbase::Attributes'
    st.assume(mk_nz(IN), True)
    st.assume(mk_nz(OUT), True)
    st.mem[('m', P, XF)] = ZERO
    outs = [s for s, _ in ip.call_virtual(st, 'ParseAttributes', C, P, [IN])]
    return ip, cl, P, outs


def equal_text(v, text):
    """does the attribute text v denote the same value as the parsed text"""
    if v == text:
        return True
    if v[0] == 't' and v[1] == 'tostr':
        k, x = v[2], v[3]
        if x[0] == 't' and x[1] == 'cast' and k == 'double':
            x, k = x[-1], 'int'
        return x == T('parse', k, text) or x == T('parse', 'int', text) and k == 'double' or \
            (x[0] == 't' and x[1] in ('i2f', 'conv') and x[-1] == T('parse', 'int', text))
    return False


def run_class(chk, d, C):
    cname = C.split('::')[-1]
    wp, ws = where_of(d, C, 'ParseAttributes'), where_of(d, C, 'SerializeAttributes')
    ip, cl, P, outs = parse_run(d, C, None, False)
    keys = sorted(cl.keys)
    # B2: the rest is handed over exactly once; the writer starts from the rest
    for s in outs:
        rest = [e for e in s.trace if e[0] == 'Rest']
        if rest == [('Rest', IN)]:
            chk.ok('B2')
        else:
            chk.bad('B2', cname + ' parse', wp, 'the attributes not understood are handed on %d times (must be once) when %s' % (len(rest), conds(s, P)))
        cl.want = lambda ev: False
        q = s.copy()
        q.trace = ()
        if d.db.functions[ip.lookup(C, 'SerializeAttributes', 1)].get('cls') == 'kmldom::Element':
            chk.ok('B2')
            continue
        for x, _ in ip.call_virtual(q, 'SerializeAttributes', C, P, [OUT]):
            put = [e for e in x.trace if e[0] == 'PutRest']
            if put == [('PutRest', OUT)]:
                chk.ok('B2')
            else:
                chk.bad('B2', cname + ' write', ws, 'the attributes not understood are written %d times (must be once) when %s' % (len(put), conds(x, P)))
    # B1: every attribute taken out is written back
    for key in keys:
        kname = '%s@%s' % (cname, key[1] if key[0] == 's' else short(key))
        for present in (True, False):
            ip, cl, P, outs = parse_run(d, C, key, present)
            for s in outs:
                cut = [e for e in s.trace if e[0] == 'Cut' and e[1] == key]
                peek = [e for e in s.trace if e[0] == 'Peek' and e[1] == key]
                cl.want = lambda ev: ev[0] == 'Set' and ev[1] == key
                q = s.copy()
                q.trace = ()
                for x, _ in ip.call_virtual(q, 'SerializeAttributes', C, P, [OUT]):
                    sets = [e for e in x.trace if e[0] == 'Set']
                    if present and cut:
                        if any(v and k[1] == 'eq' and ('c', -1) in k[2:] and mentions(k, lambda y: y == CD) for k, v in s.facts.items()):
                            continue     # text outside the enumeration
                        if not sets:
                            chk.bad('B1', kname, ws, 'attribute %s is read but not written back when %s' % (short(key), conds(x, P)))
                        elif len(sets) > 1 or not equal_text(sets[0][2], CD):
                            chk.bad('B1', kname, ws, 'attribute %s is read but written back as %s' % (short(key), ', '.join(short(e[2]) for e in sets)))
                        else:
                            chk.ok('B1', kname)
                    elif present and peek:
                        chk.ok('B1')
                    elif not present:
                        if sets:
                            chk.bad('B1', kname + ' absent', ws, 'attribute %s is written although it was not there, when %s' % (short(key), conds(x, P)))
                        else:
                            chk.ok('B1')
    # B3: accessors whose value is written as an attribute
    for x, r in sorted(props(d.db, C).items()):
        if 'set' not in r:
            continue
        a = A(d, C)
        a.cl = AttrClient()
        a.cl.want = lambda ev: False
        a.ip = Interp(d.db, a.cl)
        st = a.unknown()
        st.cls[OUT] = 'kmlbase::Attributes'
        st.assume(mk_nz(OUT), True)
        a.this = P = a.P
        arg, val, kind = a.arg(st, r['set'])
        for s, _ in a.call(st, r['set'], [arg]):
            a.cl.want = lambda ev: mentions(ev, lambda y: y == val)
            q = s.copy()
            q.trace = ()
            for z, _ in a.ip.call_virtual(q, 'SerializeAttributes', C, P, [OUT]):
                sets = [e for e in z.trace if e[0] == 'Set']
                if not sets:
                    continue
                kx = '%s::%s' % (cname, x)
                if len(sets) > 1:
                    chk.bad('B3', kx, ws, 'set_%s writes %d attributes' % (x, len(sets)))
                    continue
                key, text = sets[0][1], sets[0][2]
                ip2, cl2, P2, outs2 = parse_run(d, C, key, True, text)
                for s2 in outs2:
                    if any(v and k[1] == 'eq' and ('c', -1) in k[2:] for k, v in s2.facts.items()):
                        continue
                    b = A(d, C)
                    b.ip, b.cl, b.this = ip2, cl2, P2
                    cl2.want = lambda ev: False
                    okk = True
                    if 'get' in r:
                        vs = b.getv(s2, r['get'])
                        ok1 = vs == {VAL} or all(v == T('parse', 'int', text) and mentions(text, lambda y: y == VAL) for v in vs)
                        okk = okk and ok1
                    if 'has' in r:
                        okk = okk and all(truth(s2, v) is True for v in b.getv(s2, r['has']))
                    if okk:
                        chk.ok('B3', kx)
                    else:
                        chk.bad('B3', kx, wp, 'set_%s(v) is written as attribute %s but reading that back does not restore it' % (x, short(key)))
    return keys


def run_element(chk, d):
    """the keeper of unknown attributes itself"""
    E = 'kmldom::Element'
    f = d.fn1(E + '::SerializeAttributes')
    # B4: SerializeAttributes(out) merges unknown_attributes_ and re-adds every xmlns entry
    class Cl(DomClient):
        def call2(self, ip, st, fr, f, this, args, node):
            if f.get('cls') == 'kmlbase::Attributes' and f['n'] == 'MergeAttributes' and this == OUT:
                st.trace = st.trace + (('Merge', args[0]),)
                return [(st, VOID)]
            if f.get('cls') == 'kmlbase::Attributes' and f['n'] in ('SetValue', 'SetString') and this == OUT:
                st.trace = st.trace + (('Set', models.valarg(ip, st, f, 0, args), models.valarg(ip, st, f, 1, args)),)
                return [(st, VOID)]
            return None
    cl = Cl()
    ip = Interp(d.db, cl)
    st = State()
    P = d.unknown_object(st, 'P', 'kmldom::Kml')
    st.cls[OUT] = 'kmlbase::Attributes'
    st.assume(mk_nz(OUT), True)
    ua, xn = T('init', ('m', P, UA)), T('init', ('m', P, XN))
    w = '%s:%s %s' % (f['file'], f.get('line', f.get('l', '?')), f['qn'])
    for s, _ in ip.run(f, P, [OUT], st):
        hasu = s.decide(mk_nz(ua))
        merges = [e for e in s.trace if e[0] == 'Merge']
        if hasu is not False:
            if merges == [('Merge', ua)]:
                chk.ok('B4', 'unknown attributes written')
            else:
                chk.bad('B4', 'Element unknown attributes', w, 'unknown attributes are not merged into the output when %s' % conds(s, P))
        loops = [e for e in s.trace if e[0] == 'loop' or e[0] == 'Set']
        if s.decide(mk_nz(xn)) is not False:
            ok = False
            for e in loops:
                if e[0] == 'loop':
                    # every iteration sets exactly one attribute whose value is the entry's
                    ok = all(len([y for y in b if y[0] == 'Set']) == 1 for b in e[2])
            sz = any(v is False and k[1] == 'lt' and 'iv' in repr(k) for k, v in s.facts.items())
            if ok or not loops:
                chk.ok('B4', 'xmlns attributes written')
            else:
                chk.bad('B4', 'Element xmlns attributes', w, 'xmlns declarations are not all written when %s' % conds(s, P))
    chk.notes['b4'] = 1


def run(chk, db):
    d = Dom(db)
    classes = d.concrete_classes()
    chk.rule('B1', 'every attribute ParseAttributes takes out of the list is written back by SerializeAttributes under the '
                   'same name with the same value, and is not written when it was absent')
    chk.rule('B2', 'on every path ParseAttributes hands the remaining attributes on exactly once, and SerializeAttributes '
                   'starts from them exactly once')
    chk.rule('B3', 'a value written as an attribute after set_X is restored by ParseAttributes')

    def work(c, C):
        try:
            c.notes['attributes'] = c.notes.get('attributes', 0) + len(run_class(c, d, C))
        except Budget as e:
            c.unk('B1', C, e)
    harness.parallel(chk, classes, work)
    return dict(classes=len(classes))
