"""Schema files: what a schema declares is indexed completely, and every question about it is answered from that."""
import re
from eng import *
from build import *
import harness, itertools
from harness import guard
from ids import getter
from kmz import S, method
from values import fns, report
from imports import ICl, strs

XF, XH, XE, XT = 'kmlxsd::XsdFile', 'kmlxsd::XsdHandler', 'kmlxsd::XsdElement', 'kmlxsd::XsdType'
PRIM = ['string', 'boolean', 'decimal', 'float', 'double', 'duration', 'dateTime', 'time', 'date', 'gYearMonth', 'gYear', 'gMonthDay', 'gDay', 'gMonth', 'hexBinary', 'base64Binary', 'anyURI', 'QNAME', 'NOTATION', 'integer', 'long', 'int']


def el(n, *kids, **at):
    return (n, {k.rstrip('_'): v for k, v in at.items()}, list(kids))


def E(name, type_=None, **at):
    return el('element', name=name, **({'type': type_} if type_ else {}), **at)


def R(ref):
    return el('element', ref=ref)


def CT(name, *kids, base=None):
    seq = [el('sequence', *kids)] if kids else []
    if base:
        seq = [el('complexContent', el('extension', *seq, base=base))]
    return el('complexType', *seq, **({'name': name} if name else {}))


def ST(name, base, *vals):
    return el('simpleType', el('restriction', *[el('enumeration', value=v) for v in vals], base=base), **({'name': name} if name else {}))


def SC(*kids, ns='http://ns', at=None):
    a = {'xmlns': 'http://www.w3.org/2001/XMLSchema', 'xmlns:k': 'http://ns', 'xmlns:o': 'http://other', 'targetNamespace': ns}
    if at is not None:
        a = at
    return ('schema', a, list(kids))


def docs():
    base = [E('name', 'string'), E('open', 'boolean', default='1'), E('Obj', 'k:ObjType', abstract='true'), E('F', 'k:FType', abstract='1', substitutionGroup='k:Obj'), E('P', 'k:PType', substitutionGroup='k:F'), E('mode', 'k:modeEnum'), E('far', 'o:T'), E('untyped')]
    types = [CT('ObjType', E('oid', 'string')), CT('FType', R('k:name'), R('k:open'), E('local', 'int'), base='k:ObjType'), CT('PType', R('k:mode'), R('o:ext'), R('k:none'), base='k:FType'), ST('modeEnum', 'string', 'a', 'b', 'a'), ST('num', 'double'), CT('Alone'), CT('Ext', E('x'), base='o:T')]
    yield 'usual', SC(*(base + types))
    yield 'types first', SC(*(types + base))
    yield 'interleaved', SC(*[x for p in itertools.zip_longest(base, types[::-1]) for x in p if x])
    yield 'empty', SC()
    yield 'no schema attributes', SC(E('a', 'string'), CT('T', E('b')), at={})
    yield 'no prefix', SC(E('a', 'k:T'), CT('T', R('k:a')), at={'targetNamespace': 'http://ns', 'xmlns': 'http://ns'})
    yield 'other target', SC(E('a', 'k:T'), E('b', 'o:T'), CT('T', R('o:a'), R('k:a')), ns='http://other')
    yield 'anonymous type in a global element', SC(el('element', CT(None, E('y', 'string')), name='x'), E('z', 'k:T'), CT('T', E('i')))
    yield 'anonymous simple type in a global element', SC(el('element', ST(None, 'string', 'q'), name='x'), E('z', 'k:T'), CT('T', E('i')))
    yield 'anonymous type inside a type', SC(E('z', 'k:T'), CT('T', E('i'), el('element', CT(None, E('in1'), E('in2')), name='j'), E('l')), CT('U', E('m')))
    yield 'anonymous simple type inside a type', SC(E('z', 'k:T'), CT('T', el('element', ST(None, 'string', 'q'), name='j'), E('l'), base='k:U'), CT('U', E('m')))
    yield 'element is the root', E('x', 'string')
    yield 'complexType is the root', CT('T', E('x'))
    yield 'nameless element', SC(el('element'), el('element', type='string'), E('a', 'string'), CT('T', el('element'), E('b')))
    yield 'element in a group', SC(el('group', E('g', 'string'), name='G'), E('a', 'string'), CT('T', el('choice', E('c1'), R('k:a')), E('c2')))
    yield 'cycle of two', SC(E('x', 'k:A'), E('y', 'k:B'), CT('A', E('i'), base='k:B'), CT('B', E('j'), base='k:A'), CT('C', base='k:A'))
    yield 'cycle of one', SC(E('x', 'k:A'), CT('A', E('i'), base='k:A'), CT('Z'))
    yield 'missing base', SC(E('x', 'k:A'), CT('A', base='k:none'), CT('B', base='k:A'), E('y', 'k:B'))
    yield 'base is simple', SC(E('x', 'k:A'), CT('A', base='k:S'), ST('S', 'string', 'v'))
    yield 'redeclared', SC(E('x', 'k:A'), E('x', 'string'), CT('A', E('i')), CT('A', E('j'), base='k:B'), CT('B'))
    yield 'names near the prefix', SC(E('a', 'kk:T'), E('b', 'k'), E('c', 'k:'), E('d', ':T'), E('e', 'T'), E('f', 'k:T'), E('k:g', 'string'), E('h', 'kxT'), ST('V', 'string', '', 'a', ''), CT('T', R('kT'), R('kxf'), R('k:'), R('k:f'), R('f')))
    for n in (1, 4):
        ch = [CT('T%d' % i, E('e%d' % i), base='k:T%d' % (i + 1) if i < n else None) for i in range(n + 1)]
        yield 'chain of %d' % n, SC(*(ch + [E('x%d' % i, 'k:T%d' % i) for i in range(n + 1)]))
    yield 'simple kinds', SC(E('p', 'int'), E('q', 'k:S'), E('r', 'k:S', abstract='true'), E('s', 'string', abstract='true'), E('t', 'k:C'), E('u', 'string', abstract='false'), ST('S', 'string', 'x', 'y'), CT('C'))
    yield 'all primitives', SC(*[E('e_' + p, p) for p in PRIM + ['xs:string', 'String', 'strin', 'stringg', 'Int']])


class Oracle:
    def __init__(self, root):
        self.el, self.ty, self.schema = {}, {}, None
        self.walk(root, None, None)

    def walk(self, n, parent, cur):
        name, at, kids = n
        if name == 'schema':
            t = at.get('targetNamespace', '')
            px = sorted(k[6:] for k, v in at.items() if k.startswith('xmlns:') and v == t)
            self.schema = (t, px[0]) if t and px and px[0] else None
        elif name == 'element':
            e = None
            if 'name' in at:
                e = {'name': at['name'], 'type': at.get('type', ''), 'default': at.get('default', ''), 'abstract': at.get('abstract', '') in ('true', '1'), 'sub': at.get('substitutionGroup', ''), 'ref': False}
            elif 'ref' in at:
                e = {'name': at['ref'], 'type': '', 'default': '', 'abstract': False, 'sub': '', 'ref': True}
            if e and parent == 'schema':
                self.el[e['name']] = e
            elif e and cur and cur['kind'] == 'complex':
                cur['seq'].append(e)
        elif name in ('complexType', 'simpleType'):
            cur = {'kind': name[:-4], 'name': at['name'], 'base': '', 'seq': [], 'enum': []} if 'name' in at else None
        elif name == 'extension' and cur and cur['kind'] == 'complex' or name == 'restriction' and cur and cur['kind'] == 'simple':
            cur['base'] = at.get('base', cur['base'])
        elif name == 'enumeration' and cur and cur['kind'] == 'simple' and 'value' in at:
            cur['enum'].append(at['value'])
        for k in kids:
            self.walk(k, name, cur)
        if name in ('complexType', 'simpleType') and cur:
            self.ty[cur['name']] = cur

    def local(self, n):
        if not self.schema:
            return None
        p = self.schema[1] + ':'
        return n[len(p):] if n.startswith(p) and len(n) > len(p) else None

    def type_of(self, e):
        if not e or not e['type']:
            return None
        if e['type'] in PRIM:
            return {'kind': 'primitive', 'name': e['type']}
        return self.ty.get(self.local(e['type']))

    def base(self, t):
        b = self.ty.get(self.local(t['base']))
        return b if b and b['kind'] == 'complex' else None

    def hier(self, t):
        r, seen = [], [t]
        while t['base']:
            t = self.base(t)
            if t is None or t in seen:
                return r, False
            seen.append(t)
            r.append(t)
        return r, True

    def children(self, t):
        r = []
        for e in t['seq']:
            if not e['ref']:
                r.append(e)
            else:
                x = self.el.get(self.local(e['name']))
                if x:
                    r.append(x)
        return r


def events(n):
    yield 's', n[0], [x for kv in n[1].items() for x in kv]
    for k in n[2]:
        yield from events(k)
    yield 'e', n[0], None


class XCl(ICl):
    """objects that are not there, empty stacks and walks without end are failures"""

    def call(self, ip, st, fr, g, this, args, node):
        if this == ZERO and not g.get('static') and g['kind'] != 'fn' and 'intrusive_ptr' not in g['qn'] and 'scoped_ptr' not in g['qn']:
            self.bad(st, 'a member of nothing is used: %s' % g['qn'].split('::')[-1])
            return [(st, T('nothing', S(g['n'])))]
        if g['qn'].split('<')[0] == 'kmlbase::FromString' and len(args) == 2 and 'bool' in ip.ty(g['params'][1]['t']).get('s', '') and args[1][0] == 'p':    # decided by C19
            v = models.valarg(ip, st, g, 0, args)
            v = ip.load(st, v[1]) if v[0] == 'p' else v
            if v[0] == 's':
                w = v[1].lstrip()
                ip.store(st, args[1][1], ONE if w[:4] == 'true' or w[:1] == '1' else ZERO, fr, node)
                return [(st, VOID)]
        if g['n'] in ('top', 'pop', 'back', 'front', 'pop_back') and this is not None and this[0] == 'p' and 'std::' in g['qn'] and not args:
            v = ip.load(st, this[1])
            if v == ('vec', ()):
                self.bad(st, 'the %s of an empty list is used' % g['n'])
        return super().call(ip, st, fr, g, this, args, node)

    def load(self, ip, st, fr, loc, node):
        if loc[0] == 'm' and loc[1] == ZERO:
            self.bad(st, 'a member of nothing is read')
        return super().load(ip, st, fr, loc, node)

    def opaque(self, ip, st, fr, g, this, args, node):
        if 'body' in g:
            self.bad(st, '%s calls itself without end' % g['n'])
        return super().opaque(ip, st, fr, g, this, args, node)

    def endless(self, ip, st, fr, loop):
        self.bad(st, 'a loop of %s does not end' % fr.fn.get('n', '?'))
        return True


def text(v):
    if v[0] != 's':
        raise AnalysisBroken('a text is unknown: %s' % pp(v)[:80])
    return v[1]


def truth(v):
    v = mk_nz(v)
    if v not in (ZERO, ONE):
        raise AnalysisBroken('a flag is unknown: %s' % pp(v)[:80])
    return v == ONE


def elem(ip, s, o):
    if o == ZERO:
        return None
    g = lambda n: getter(ip, s, XE, n, o)
    return {'name': text(g('get_name')), 'type': text(g('get_type')), 'default': text(g('get_default')), 'abstract': truth(g('is_abstract')), 'sub': text(g('get_substitution_group')), 'ref': truth(g('is_ref'))}


def typ(ip, s, o):
    if o == ZERO:
        return None
    c = s.cls.get(o, '').split('::')[-1]
    if c == 'XsdPrimitiveType':
        return {'kind': 'primitive', 'name': text(getter(ip, s, 'kmlxsd::XsdPrimitiveType', 'get_name', o))}
    if c not in ('XsdComplexType', 'XsdSimpleType'):
        raise AnalysisBroken('a type of class %s' % c)
    k = 'kmlxsd::' + c
    r = {'kind': 'complex' if 'Complex' in c else 'simple', 'name': text(getter(ip, s, k, 'get_name', o)), 'base': text(getter(ip, s, k, 'get_base', o)), 'seq': [], 'enum': []}
    cx = truth(getter(ip, s, k, 'is_complex', o))
    if cx != (r['kind'] == 'complex'):
        r['kind'] += ' but says it is not'
    if c == 'XsdComplexType':
        n = getter(ip, s, k, 'get_sequence_size', o)
        r['seq'] = [elem(ip, s, getter_at(ip, s, k, 'get_sequence_at', o, i)) for i in range(n[1])]
        if truth(getter(ip, s, k, 'has_extension_base', o)) != bool(r['base']) or text(getter(ip, s, k, 'get_extension_base', o)) != r['base']:
            r['base'] += ' (or not)'
    else:
        n = getter(ip, s, k, 'get_enumeration_size', o)
        r['enum'] = [text(getter_at(ip, s, k, 'get_enumeration_at', o, i)) for i in range(n[1])]
        if text(getter(ip, s, k, 'get_restriction_base', o)) != r['base'] or truth(getter(ip, s, k, 'IsEnumeration', o)) != (r['base'] == 'string' and bool(r['enum'])):
            r['base'] += ' (or not)'
    return r


def load(d, root):
    """the state after the handler has seen the document"""
    ip = EInterp(d.db, XCl())
    ip.recursion_limit, ip.unroll, ip.max_depth = 14, 60, 60
    st = State()
    xf, h = obj(st, 'FILE', XF), obj(st, 'HANDLER', XH)
    st.mem[('exact', xf)] = st.mem[('exact', h)] = ONE
    st = single(ip.run(ctor(d, XF, 0), xf, [], st), 'XsdFile')[0]
    st = single(ip.run(ctor(d, XH, 1), h, [xf], st), 'XsdHandler')[0]
    se, ee = method(d, XH, 'StartElement'), method(d, XH, 'EndElement')
    xs = [(st, VOID)]
    for k, n, at in events(root):
        ys = []
        for s, _ in xs:
            if k == 's':
                ys += ip.run(se, h, [('p', ip.tmp(s, S(n))), ('p', ip.tmp(s, ('vec', tuple(S(x) for x in at))))], s)
            else:
                ys += ip.run(ee, h, [('p', ip.tmp(s, S(n)))], s)
        xs = ys
    return ip, xs, xf


def brief(x):
    if isinstance(x, list):
        return [brief(y) for y in x]
    return x['name'] if isinstance(x, dict) else x


def differ(what, got, want):
    return None if got == want else '%s: %s instead of %s' % (what, brief(got), brief(want)) if brief(got) != brief(want) else '%s: %s is not as declared' % (what, brief(got))


def schemas(chk, d):
    se = method(d, XH, 'StartElement')
    M = lambda n, np: method(d, XF, n, np)

    def one(c, it):
        name, root = it
        ip, xs, xf = load(d, root)
        o = Oracle(root)
        els = [o.el[k] for k in sorted(o.el)]

        def call(q, s, n, args):
            f = M(n, len(args))
            a = []
            for p, x in zip(f['params'], args):
                a.append(('p', ip.tmp(s, x)) if ip.ty(p['t']).get('ref') else x)
            rs = ip.run(f, xf, a, s)
            for r, _ in rs:
                for e in r.trace:
                    if e[0] == 'overflow':
                        raise Odd('%s: %s' % (n, e[1][1]))
            return single(rs, n)

        def vec(q, s, n, *args):
            out = ip.tmp(s, ('vec', ()))
            s2, _ = call(q, s, n, list(args) + [('p', out)])
            v = ip.load(s2, out)
            if v[0] != 'vec':
                raise AnalysisBroken('the result of %s is unknown' % n)
            return s2, v[1], _

        def all_(s, n, *args):
            s2, v, _ = vec(None, s.copy(), n, *args)
            return [elem(ip, s2, x) if kind == 'e' else typ(ip, s2, x) for kind in 'e' for x in v]

        def check(q, s):
            r = differ('the elements', all_(s, 'GetAllElements'), els)
            if r:
                return r
            s2, v, _ = vec(q, s.copy(), 'GetAllTypes')
            tys = {typ(ip, s2, x)['name']: x for x in v}
            r = differ('the types', [typ(ip, s2, x) for x in v], [o.ty[k] for k in sorted(o.ty)])
            if r:
                return r
            if o.schema:
                for n, w in zip(('get_target_namespace', 'get_target_namespace_prefix'), o.schema):
                    if text(getter(ip, s, XF, n, xf)) != w:
                        return '%s is not %r' % (n, w)
            ptr = {}
            for n in sorted(set(list(o.el) + list(o.ty) + ['none', '', 'k:' + (sorted(o.el) or ['x'])[0]])):
                s2, v = call(q, s.copy(), 'FindElement', [S(n)])
                v = ip.load(s2, v[1]) if v[0] == 'p' else v
                r = differ('the element %r' % n, elem(ip, s2, v), o.el.get(n))
                if r:
                    return r
                ptr[n] = v
                s2, v = call(q, s.copy(), 'FindType', [S(n)])
                v = ip.load(s2, v[1]) if v[0] == 'p' else v
                r = differ('the type %r' % n, typ(ip, s2, v), o.ty.get(n))
                if r:
                    return r
                for ref in (n, 'k:' + n, 'o:' + n):
                    s2, v = call(q, s.copy(), 'ResolveRef', [S(ref)])
                    v = ip.load(s2, v[1]) if v[0] == 'p' else v
                    r = differ('the reference %r' % ref, elem(ip, s2, v), o.el.get(o.local(ref)))
                    if r:
                        return r
                s2, v = call(q, s.copy(), 'FindElementType', [ptr[n]])
                v = ip.load(s2, v[1]) if v[0] == 'p' else v
                r = differ('the type of %r' % n, typ(ip, s2, v), o.type_of(o.el.get(n)))
                if r:
                    return r
                t = o.type_of(o.el.get(n))
                r = differ('the children of %r' % n, all_(s, 'GetChildElements', S(n)), o.children(t) if t and t['kind'] == 'complex' else [])
                if r:
                    return r
            kinds = [[e for e in els if e['abstract']], [e for e in els if not e['abstract'] and (o.type_of(e) or {}).get('kind') == 'complex'], [e for e in els if not e['abstract'] and (o.type_of(e) or {}).get('kind') in ('simple', 'primitive')]]
            for n, w in zip(('GetAbstractElements', 'GetComplexElements', 'GetSimpleElements'), kinds):
                r = differ(n, all_(s, n), w)
                if r:
                    return r
            s2 = s.copy()
            out, b1, b2 = ip.tmp(s2, ('vec', ())), ip.tmp(s2, ZERO), ip.tmp(s2, ZERO)
            s2, _ = call(q, s2, 'GenerateElementIdVector', [('p', out), ('p', b1), ('p', b2)])
            got = [elem(ip, s2, x) for x in ip.load(s2, out)[1]]
            r = differ('the element ids', got, kinds[0] + kinds[1] + kinds[2])
            if r:
                return r
            if (ip.load(s2, b1), ip.load(s2, b2)) != (('c', len(kinds[0])), ('c', len(kinds[0]) + len(kinds[1]))):
                return 'the element ids begin elsewhere'
            for n in sorted(o.ty):
                t = o.ty[n]
                w = [e for e in els if (o.type_of(e) or {}).get('kind') == 'complex' and (o.type_of(e) is t or t in o.hier(o.type_of(e))[0])] if o.schema and t['kind'] == 'complex' else []
                r = differ('the elements of type %s' % n, all_(s, 'GetElementsOfTypeByName', S(n)), w)
                if r:
                    return r
                if t['kind'] != 'complex':
                    continue
                r = differ('the elements of the type %s' % n, all_(s, 'GetElementsOfType', tys[n]), w)
                if r:
                    return r
                if o.schema:
                    s2, v = call(q, s.copy(), 'GetBaseType', [tys[n]])
                    v = ip.load(s2, v[1]) if v[0] == 'p' else v
                    r = differ('the base of %s' % n, typ(ip, s2, v), o.base(t))
                    if r:
                        return r
                    h, ok = o.hier(t)
                    s2, v, ret = vec(q, s.copy(), 'GetTypeHierarchy', tys[n])
                    if truth(ret) != ok:
                        return 'the bases of %s are %s' % (n, 'said to be complete' if not ok else 'said to be incomplete')
                    if ok:
                        r = differ('the bases of %s' % n, [typ(ip, s2, x) for x in v], h)
                        if r:
                            return r
                for n2 in sorted(o.ty):
                    if o.ty[n2]['kind'] == 'complex':
                        s2, v = call(q, s.copy(), 'SearchTypeHierarchy', [tys[n], tys[n2]])
                        w = bool(o.schema) and (n == n2 or o.ty[n2] in o.hier(t)[0])
                        if truth(v) != w:
                            return '%s is%s of type %s' % (n, '' if not w else ' not', n2)
            return None

        def expect(q, s):
            try:
                return check(q, s)
            except Odd as e:
                return str(e)
        report(c, 'X1', 'schema: %s' % name, se, xs, expect, ip)
    harness.parallel(chk, list(docs()), one)


def aliases(chk, d):
    XP = 'kmlxsd::XstParser'
    f = method(d, XP, 'ParseXst', 1)
    L = ['alias A B', 'alias A C', 'alias B A', '', '# x', 'alias A', 'alias A B C', 'aliasx A B', ' alias A B', 'alias  A', 'complex A B']
    texts = [''] + L + ['\n'.join(p) for p in itertools.product(L, repeat=2)] + ['\n'.join(L), '\n'.join(L[::-1]) + '\n']

    def one(c, t):
        ip = EInterp(d.db, XCl())
        ip.unroll = 60
        st = State()
        xf, xp = obj(st, 'FILE', XF), obj(st, 'XST', XP)
        st.mem[('exact', xf)] = st.mem[('exact', xp)] = ONE
        st = single(ip.run(ctor(d, XF, 0), xf, [], st), 'XsdFile')[0]
        st = single(ip.run(ctor(d, XP, 1), xp, [xf], st), 'XstParser')[0]
        rs = ip.run(f, xp, [('p', ip.tmp(st, S(t)))], st)
        want = {}
        for l in t.split('\n'):
            w = l.split(' ')
            if len(w) == 3 and w[0] == 'alias':
                want[w[1]] = w[2]

        def expect(q, s):
            for n in ('A', 'B', 'C', '', 'alias'):
                g = method(d, XF, 'get_alias', 1)
                s2, v = single(ip.run(g, xf, [('p', ip.tmp(s, S(n)))], s.copy()), 'get_alias')
                v = ip.load(s2, v[1]) if v[0] == 'p' else v
                if text(v) != want.get(n, ''):
                    return 'the alias of %r is %r instead of %r' % (n, v[1], want.get(n, ''))
            return None
        report(c, 'X2', 'aliases of %r' % t, f, rs, expect, ip)
    harness.parallel(chk, texts, one)


def loading(chk, d):
    f = method(d, XF, 'CreateFromParse', 2)

    class LCl(XCl):
        def call(self, ip, st, fr, g, this, args, node):
            if g['qn'] == 'kmlbase::ExpatParser::ParseString':
                st.trace = st.trace + (('parse', models.valarg(ip, st, g, 0, args), args[1], args[2]),)
                h = args[1]
                a = st.copy()
                out = []
                for s, r in ((a, ONE), (st, ZERO)):
                    s.mem[('parsed',)] = r
                    xs = [s]
                    for k, n, at in events(DOC):
                        ys = []
                        for x in xs:
                            m = method(d, XH, 'StartElement' if k == 's' else 'EndElement')
                            ys += [y for y, _ in ip.run(m, h, [('p', ip.tmp(x, S(n)))] + ([('p', ip.tmp(x, ('vec', tuple(S(z) for z in at))))] if k == 's' else []), x)]
                        xs = ys
                    out += [(x, r) for x in xs]
                return out
            return super().call(ip, st, fr, g, this, args, node)
    DOC = SC(E('a', 'k:T'), CT('T', E('b')))
    for err in (0, 1):
        ip = EInterp(d.db, LCl())
        st = State()
        e = ip.tmp(st, S(''))
        rs = ip.run(f, None, [('p', ip.tmp(st, T('DATA'))), ('p', e) if err else ZERO], st)

        def expect(q, s):
            ev = [x for x in s.trace if x[0] == 'parse']
            if len(ev) != 1 or ev[0][1] != T('DATA') or ev[0][3] != (('p', e) if err else ZERO):
                return 'the data is not parsed once, with the place for errors'
            r = s.mem[('ret',)]
            if s.mem[('parsed',)] == ZERO:
                return None if r == ZERO else 'a file is made of data that does not parse'
            if s.cls.get(r) != XF:
                return 'no file is made of data that parses'
            if s.mem.get(('live', r)) == ZERO:
                return 'the file is given back deleted'
            g = method(d, XF, 'GetAllElements', 1)
            out = ip.tmp(s, ('vec', ()))
            s2, _ = single(ip.run(g, r, [('p', out)], s), 'GetAllElements')
            return None if [elem(ip, s2, x)['name'] for x in ip.load(s2, out)[1]] == ['a'] else 'the file does not hold what was parsed'
        report(chk, 'X2', 'CreateFromParse%s' % ('' if err else ' without a place for errors'), f, rs, expect, ip)


class Odd(Exception):
    pass


from regionator import getter_at


def primitives(chk, d):
    XP = 'kmlxsd::XsdPrimitiveType'
    en = [(n, v) for q, e in d.db.enums.items() for n, v in e['e'] if n.startswith('XSD_') and q == XP + '::TypeId']
    if not en:
        chk.unk('X1', 'primitive types', 'the ids are not found')
        return
    tn, ti = method(d, XP, 'GetTypeName', 1), method(d, XP, 'GetTypeId', 1)
    val = dict(en)
    for name in PRIM + ['', 'gday', 'xsd:string', 'INVALID']:
        ip = EInterp(d.db, XCl())
        ip.unroll = 60
        st = State()
        rs = ip.run(ti, None, [('p', ip.tmp(st, S(name)))], st)
        n = 'XSD_' + re.sub(r'(?<=[a-z])(?=[A-Z])|(?<=^g)(?=[A-Z])|(?<=[a-z]{4}[0-9]{2})(?=[A-Z])', '_', name).upper()
        w = val.get(n if name in PRIM else 'XSD_INVALID')
        report(chk, 'X1', 'the id of the type %r' % name, ti, rs, lambda q, s: None if s.mem[('ret',)] == ('c', w) else 'is %s' % pp(s.mem[('ret',)]), ip)
        if name in PRIM:
            ip = EInterp(d.db, XCl())
            ip.unroll = 60
            rs = ip.run(tn, None, [('c', w)], State())
            report(chk, 'X1', 'the name of the type %s' % n, tn, rs, lambda q, s: None if s.mem[('ret',)] == S(name) else 'is %s' % pp(s.mem[('ret',)]), ip)


def run(chk, db):
    d = Dom(db)
    d.classes()
    chk.rule('X1', 'every declaration of a schema is found under its name as declared, and every question about elements, types, children and bases is answered from the declarations, with an answer for every document')
    chk.rule('X2', 'aliases are exactly those declared, and a schema file exists exactly if its data parses')
    for g in (schemas, aliases, loading, primitives):
        guard(chk, g.__name__, g, chk, d)
    return {}
