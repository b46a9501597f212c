"""Clone: the copy receives exactly what the source writes.  The serializer that Clone hands to the source is driven by
every well-nested sequence of writing events up to a bound (what a source may write is decided by C01-C03); what it does
to the elements it creates is compared with what reading the same document does."""
from eng import *
import harness
import itertools
from harness import guard

SRC = T('OBJ', 'SRC')
CHAR = 'kmldom::Element::char_data_'


class Cl(EngClient):
    def __init__(self, d, script, entry='Serialize'):
        super().__init__()
        self.d = d
        self.script = script

    def call(self, ip, st, fr, f, this, args, node):
        n, cls = f['n'], f.get('cls', '')
        if n == 'Serialize' and this == SRC and f.get('virt'):
            return [(x, VOID) for x in self.play(ip, st, fr, args[0])]
        if cls == 'kmldom::KmlFactory' and n in ('CreateElementById', 'CreateFieldById'):
            e = ip.new_obj(st, 'kmldom::Field' if n == 'CreateFieldById' else 'kmldom::Element')
            st.mem[('mk', e)] = args[0]
            st.mem[('m', e, CHAR)] = ('s', '')
            st.assume(mk_nz(e), True)
            st.trace = st.trace + (('New', e, args[0], n),)
            return [(st, e)]
        if cls == 'kmldom::KmlFactory' and n.startswith('Create') and not args:
            c = 'kmldom::' + n[6:]
            e = ip.new_obj(st, c)
            st.mem[('mk', e)] = ('c', self.d.tval.get('Type_' + n[6:], -1))
            st.trace = st.trace + (('New', e, st.mem[('mk', e)], n),)
            return [(st, e)]
        if this is not None and ip.is_sub(cls, ELEM):
            if n == 'ParseAttributes':
                a = args[0]
                st.trace = st.trace + (('Attrs', this, ip.load(st, ('m', a, 'kmlbase::Attributes::attributes_map_')) if a != ZERO else None, a),)
                return [(st, VOID)]
            if n == 'AddElement':
                v = models.valarg(ip, st, f, 0, args)
                st.trace = st.trace + (('Add', this, v, st.mem.get(('m', v, CHAR))),)
                return [(st, VOID)]
            if n == 'AddUnknownElement':
                st.trace = st.trace + (('Unknown', this, models.valarg(ip, st, f, 0, args)),)
                return [(st, VOID)]
            if n == 'add_vec3':
                st.trace = st.trace + (('Vec', this, models.valarg(ip, st, f, 0, args)),)
                return [(st, VOID)]
            if n == 'Type' and ('mk', this) in st.mem:
                return [(st, st.mem[('mk', this)])]
            if n == 'IsA' and ('mk', this) in st.mem and args[0][0] == 'c':
                return [(st, mk_eq(st.mem[('mk', this)], args[0]))]
        return super().call(ip, st, fr, f, this, args, node)

    def cast(self, ip, st, fr, v, c, node):
        if v in (ZERO,):
            return [(st, ZERO)]
        t = st.mem.get(('mk', v))
        if t is not None:
            tv = self.d.tval.get('Type_' + c.split('::')[-1], self.d.tval.get('Type_' + c.split('::')[-1].lower()))
            if c == ELEM:
                return [(st, v)]
            if t[0] == 'c' and tv is not None:
                return [(st, v if t[1] == tv else ZERO)]
        return super().cast(ip, st, fr, v, c, node)

    def play(self, ip, st, fr, ser):
        cls = st.cls.get(ser) or self.sercls
        states = [st]
        for step in self.script:
            nx = []
            for s in states:
                nx += self.step(ip, s, ser, cls, step)
            states = nx
            if len(states) > 64:
                raise AnalysisBroken('too many states')
        return states

    sercls = None

    def virt(self, ip, s, ser, cls, name, args):
        return [x for x, _ in ip.call_virtual(s, name, cls, ser, args)]

    def step(self, ip, s, ser, cls, step):
        k = step[0]
        if k == 'B':
            a = T('OBJ', 'ATTR%s' % (step[2],))
            s.cls[a] = 'kmlbase::Attributes'
            s.assume(mk_nz(a), True)
            s.mem[('m', a, 'kmlbase::Attributes::attributes_map_')] = T('ATTRMAP', step[2])
            return self.virt(ip, s, ser, cls, 'BeginById', [step[1], a])
        if k == 'E':
            return self.virt(ip, s, ser, cls, 'End', [])
        if k == 'F':
            return self.virt(ip, s, ser, cls, 'SaveStringFieldById', [step[1], step[2]])
        if k == 'C':
            return self.virt(ip, s, ser, cls, 'SaveContent', [('p', ip.tmp(s, step[1])), ONE])
        if k == 'U':
            out = self.virt(ip, s, ser, cls, 'BeginElementArray', [('c', self.d.tval['Type_Unknown']), ('c', len(step[1]))])
            for c in step[1]:
                nx = []
                for x in out:
                    for y in self.virt(ip, x, ser, cls, 'Indent', []):
                        nx += self.virt(ip, y, ser, cls, 'SaveContent', [('p', ip.tmp(y, c)), ZERO])
                out = nx
            res = []
            for x in out:
                res += self.virt(ip, x, ser, cls, 'EndElementArray', [('c', self.d.tval['Type_Unknown'])])
            return res
        if k == 'A':      # array markers of known children
            return self.virt(ip, s, ser, cls, step[1], [step[2]] + ([ONE] if step[1].startswith('Begin') else []))
        if k == 'V':
            v = T('OBJ', 'VEC%s' % (step[1],))
            s.cls[v] = 'kmlbase::Vec3'
            s.assume(mk_nz(v), True)
            return self.virt(ip, s, ser, cls, 'SaveVec3', [v])
        if k == 'K':
            c = T('OBJ', 'COL%s' % (step[1],))
            s.cls[c] = 'kmlbase::Color32'
            s.assume(mk_nz(c), True)
            s.mem[('m', c, 'kmlbase::Color32::color_abgr_')] = T('COLOR', step[1])
            return self.virt(ip, s, ser, cls, 'SaveColor', [T('ktype', step[1]), c])
        raise AnalysisBroken(k)


def scripts(d):
    """well-nested writing sequences: root with up to 3 items of each kind, children up to depth 3"""
    n = [0]

    def sym(p):
        n[0] += 1
        return T(p, n[0])

    def build(shape, typ=None):
        # shape: list of item kinds / nested lists
        n[0] += 1
        out = [('B', typ or sym('type'), n[0])]
        for it in shape:
            if isinstance(it, tuple):
                out += build(it)
            elif it == 'F':
                out.append(('F', sym('ftype'), sym('value')))
            elif it == 'C':
                out.append(('C', sym('text')))
            elif it == 'U':
                out.append(('U', (sym('xml'),)))
            elif it == 'W':
                out.append(('U', (sym('xml'), sym('xml'))))
            elif it == 'K':
                n[0] += 1
                out.append(('K', n[0]))
            elif it == 'P':
                n[0] += 1
                out += [('B', ('c', d.tval['Type_coordinates']), n[0]), ('V', n[0] * 100), ('V', n[0] * 100 + 1), ('E',)]
            elif it == 'M':
                out.append(('A', 'BeginElementArray', sym('atype')))
            elif it == 'N':
                out.append(('A', 'EndElementArray', sym('atype')))
        out.append(('E',))
        return out
    subs = [(), ('F',), ('C',), ('U',), ('C', 'U'), ('P',), (('C',),), ('F', ('U', 'F'), 'F'), (('F', (), 'C'),)]
    items = ['F', 'C', 'U', 'W', 'K', 'P'] + subs
    shapes = [()]
    shapes += [(a,) for a in items]
    shapes += [(a, b) for a in items for b in items]
    shapes += [(a, b, c) for a in ['F', 'C', 'U', ('C',), ('F', 'C')] for b in ['F', 'C', 'U', 'K', (), ('C', 'U'), ('U',)] for c in ['F', 'C', 'U', ('C',), ('F',)]]
    shapes += [('M', ('F',), ('C',), 'N', 'C'), ('C', 'M', (), 'N', 'U')]
    return [(s, build(s)) for s in shapes]


def expected(script):
    """what reading the same document does to each element, in order"""
    acts = {}
    order = []
    stack = []
    root = None
    n = 0
    for st in script:
        if st[0] == 'B':
            n += 1
            e = ('E', n)
            acts[e] = dict(type=st[1], attrs=T('ATTRMAP', st[2]), kids=[], text=[], unknown=[], vec=[])
            stack.append(e)
            if root is None:
                root = e
        elif st[0] == 'E':
            e = stack.pop()
            if stack:
                acts[stack[-1]]['kids'].append(e)
        elif st[0] == 'F':
            n += 1
            e = ('E', n)
            acts[e] = dict(type=st[1], attrs=None, kids=[], text=[st[2]], unknown=[], vec=[], field=True)
            if stack:
                acts[stack[-1]]['kids'].append(e)
            else:
                root = e
        elif st[0] == 'K':
            n += 1
            e = ('E', n)
            acts[e] = dict(type=T('ktype', st[1]), attrs=None, kids=[], text=[simp_color(st[1])], unknown=[], vec=[], field=True)
            acts[stack[-1]]['kids'].append(e)
        elif st[0] == 'C':
            acts[stack[-1]]['text'].append(st[1])
        elif st[0] == 'U':
            acts[stack[-1]]['unknown'] += list(st[1])
        elif st[0] == 'V':
            acts[stack[-1]]['vec'].append(T('OBJ', 'VEC%s' % (st[1],)))
    return acts, root


def simp_color(i):
    import dom
    return dom.simp_tostr('color', T('COLOR', i))


def observed(tr):
    acts = {}
    for e in tr:
        if e[0] == 'New':
            acts[e[1]] = dict(type=e[2], attrs=None, nattr=0, kids=[], own=[], unknown=[], vec=[], added=0, late=[])
    for e in tr:
        a = acts.get(e[1])
        if a is None:
            return None, 'an element of the source is modified (%s)' % e[0]
        if e[0] == 'Attrs':
            a['attrs'] = e[2]
            a['nattr'] += 1
            if e[3] is not None and e[3][:2] == ('t', 'OBJ'):
                return None, 'the copy takes over the source\'s own attribute object'
        elif e[0] == 'Add':
            if e[2] == e[1]:
                a['own'].append(e[3])
            else:
                a['kids'].append((e[2], e[3]))
                if e[2] not in acts:
                    return None, 'an element of the source is put into the copy'
                acts[e[2]]['added'] += 1
        elif e[0] == 'Unknown':
            a['unknown'].append(e[2])
        elif e[0] == 'Vec':
            a['vec'].append(e[2])
        if e[0] != 'New' and acts[e[1]]['added'] and e[0] != 'Add':
            a['late'].append(e[0])
    return acts, None


def nonempty(s, t):
    return s.decide(mk_nz(mk_size(t))) if t[0] != 's' else bool(t[1])


def flat_text(s, parts_):
    out = []
    for p in parts_:
        for q in pieces(p):
            if q == ('s', ''):
                continue
            out.append(q)
    return out


def pieces(t):
    if t[0] == 't' and t[1] == 'cat':
        r = []
        for x in t[2:]:
            r += pieces(x)
        return r
    return [t]


def compare(s, exp, obs, e, o):
    """-> None or a description of the difference"""
    x, y = exp[e], obs[o]
    if x['type'] != y['type']:
        return 'an element of type %s is copied as %s' % (pp(x['type']), pp(y['type']))
    if x['attrs'] is not None:
        if y['nattr'] != 1:
            return 'attributes are given to a copied element %d times' % y['nattr']
        if y['attrs'] != x['attrs']:
            return 'attributes are not the source\'s (%s)' % pp(y['attrs'])[:60]
    if y['unknown'] != x['unknown']:
        return 'unknown XML of an element is not copied each once in order'
    if [vec_id(v) for v in y['vec']] != [vec_id(v) for v in x['vec']]:
        return 'coordinate tuples are not copied each once in order'
    if y['late']:
        return 'a copied element is completed after it was handed to its parent'
    if not x.get('field'):
        want = [t for t in flat_text(s, x['text'])]
        got = []
        for t in y['own']:
            got += flat_text(s, [t])
        w2 = [t for t in want if nonempty(s, t) is not False]
        g2 = [t for t in got if nonempty(s, t) is not False]
        if len(y['own']) > 1 or w2 != g2 or (not w2 and y['own'] and False):
            return 'text of an element is copied as [%s] instead of [%s]' % (', '.join(pp(t) for t in g2), ', '.join(pp(t) for t in w2))
    if len(x['kids']) != len(y['kids']):
        return '%d children become %d' % (len(x['kids']), len(y['kids']))
    for a, (b, txt) in zip(x['kids'], y['kids']):
        if obs[b]['added'] != 1:
            return 'a copied child is handed to %d parents' % obs[b]['added']
        if exp[a].get('field'):
            if txt is None or flat_text(s, [txt]) != flat_text(s, exp[a]['text']):
                return 'a field value is copied as %s' % (pp(txt) if txt else 'nothing')
        r = compare(s, exp, obs, a, b)
        if r:
            return r
    return None


def vec_id(v):
    """the tuple a coordinate value was copied from"""
    ids = sorted(set(y[2] for y in subterms(v) if y[:2] == ('t', 'OBJ')))
    return ids[0] if len(ids) == 1 else pp(v)


def describe(shape):
    return '(%s)' % ' '.join(x if isinstance(x, str) else describe(x) for x in shape)


def run(chk, db):
    d = Dom(db)
    chk.rule('K1', 'driven by any well-nested sequence of writing events, Clone creates one element per element written, of its type, with a copy of its attributes, '
                   'its text, its unknown XML, its coordinate tuples and its children in order, each handed over once and complete')
    chk.rule('K2', 'nothing of the source becomes part of the copy and the source is not modified')
    chk.rule('K3', 'a null element clones to nothing')
    f = d.fn1('kmlengine::Clone')
    d.classes()

    def one(c, item):
        if item is None:
            cl = Cl(d, [])
            ip = Interp(db, cl)
            st = State()
            for s, v in ip.run(f, None, [('p', ip.tmp(st, ZERO))], st):
                if v == ZERO and not s.trace:
                    c.ok('K3', 'null')
                else:
                    c.bad('K3', 'null', where(f), 'cloning nothing gives %s' % pp(v)[:60])
            return
        shape, script = item
        key = describe(shape)
        cl = Cl(d, script)
        ip = Interp(db, cl)
        st = State()
        st.cls[SRC] = ELEM
        st.assume(mk_nz(SRC), True)
        # the texts written are not empty
        for x in script:
            if x[0] == 'C':
                st.assume(mk_nz(mk_size(x[1])), True)
            if x[0] == 'A':
                st.assume(mk_eq(x[2], ('c', d.tval['Type_Unknown'])), False)
        exp, root = expected(script)
        rs = ip.run(f, None, [('p', ip.tmp(st, SRC))], st)
        for s, v in rs:
            obs, err = observed(s.trace)
            if err:
                c.bad('K2', key, where(f), err)
                continue
            c.ok('K2', key)
            if v not in obs:
                c.bad('K1', key, where(f), 'the result of cloning %s is not the copied root' % key)
                continue
            e0 = compare(s, exp, obs, root, v)
            if e0 is None and obs[v]['added']:
                e0 = 'the copied root is put into another element'
            if e0 is None and exp[root].get('field'):
                t = s.mem.get(('m', v, CHAR))
                if t != exp[root]['text'][0]:
                    e0 = 'the text of a simple element is not copied'
            if e0:
                c.bad('K1', key, where(f), '%s (source writes %s; F field, K colour, C text, U unknown XML, P coordinates, () element)' % (e0, key))
            else:
                c.ok('K1', key)
    items = [None, ('field', [('F', T('ftype'), T('value'))])] + scripts(d)
    harness.parallel(chk, items, one)
    return dict(event_sequences=len(items))
