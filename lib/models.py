"""Transfer functions for library types (std::string, containers, iterators,
smart pointers, streams, a few C functions).  Containers and strings are value
numbers stored at the container's location."""
from absint import (T, ptr_index, ZERO, ONE, UNDEF, VOID, mk_eq, mk_not, mk_nz, mk_lt, mk_add, mk_cat, mk_size,
                    arith, isc, strip_type, kind_of_class, truth_of, Frame, is_bool)

NPOS = ('c', 18446744073709551615)
EMPTYMAP = T('emptymap')
SETV = T('member')


def default_value(n):
    kc = kind_of_class(n)
    if kc == 'string':
        return ('s', '')
    if kc == 'smart':
        return ZERO
    if kc == 'vec':
        return ('vec', ())
    if kc in ('map', 'set'):
        return EMPTYMAP
    if 'stringstream' in n or 'ostream' in n:
        return ('s', '')
    return T('lib', n)


# ---- containers ------------------------------------------------------------
def mk_mapmem(m, k):
    while m[0] == 't':
        if m[1] == 'emptymap':
            return ZERO
        if m[1] in ('mapset', 'mapdel'):
            e = mk_eq(m[3], k)
            if e == ONE:
                return ONE if m[1] == 'mapset' else ZERO
            if e == ZERO:
                m = m[2]
                continue
        break
    return mk_nz(T('mapmem', m, k))


def mk_mapget(m, k):
    while m[0] == 't' and m[1] in ('mapset', 'mapdel'):
        e = mk_eq(m[3], k)
        if e == ONE and m[1] == 'mapset':
            return m[4]
        if e == ZERO:
            m = m[2]
            continue
        break
    return T('mapget', m, k)


def key_order(k):
    if k[0] == 's':
        return (0, k[1].encode('utf-8', 'replace'))
    if k[0] == 'c' and isinstance(k[1], int):
        return (1, k[1])
    if k[:2] == ('t', 'KEY'):
        return (2, k[2])
    return None


def map_items(m):
    """[(key, value)] in key order of a map all of whose keys are known, else None"""
    d = {}
    gone = set()
    while m[0] == 't' and m[1] in ('mapset', 'mapdel'):
        k = m[3]
        if key_order(k) is None:
            return None
        if k not in d and k not in gone:
            if m[1] == 'mapset':
                d[k] = m[4]
            else:
                gone.add(k)
        m = m[2]
    if m != EMPTYMAP or len(set(key_order(k)[0] for k in d)) > 1:
        return None
    return sorted(d.items(), key=lambda kv: key_order(kv[0]))


def map_of(items):
    m = EMPTYMAP
    for k, v in items:
        m = T('mapset', m, k, v)
    return m


def map_step(ip, st, it, back=False):
    """the iterator after (before) it in a map with known keys, else None"""
    if it[0] != 't' or it[1] not in ('mapfind', 'end', 'begin'):
        return None
    cur = ip.load(st, ip.deref_loc(it[2]))
    xs = map_items(cur)
    if xs is None:
        return None
    ks = [k for k, _ in xs]
    if it[1] == 'mapfind':
        o = key_order(it[4])
        if o is None:
            return None
        if back:
            c = [k for k in ks if key_order(k) < o]
            return T('mapfind', it[2], cur, c[-1]) if c else None
        c = [k for k in ks if key_order(k) > o]
        return T('mapfind', it[2], cur, c[0]) if c else T('end', it[2], cur)
    if it[1] == 'end' and back and ks:
        return T('mapfind', it[2], cur, ks[-1])
    return None


def mk_at(v, i):
    while True:
        if v[0] == 'vec' and i[0] == 'c' and 0 <= i[1] < len(v[1]):
            return v[1][i[1]]
        if v[0] == 'arr' and i[0] == 'c' and 0 <= i[1] < len(v[1]):
            return v[1][i[1]]
        if v[0] == 't' and v[1] == 'vapp':
            if mk_size(v[2]) == i:
                return v[3]
            if mk_eq(i, mk_size(v[2])) == ZERO:
                v = v[2]
                continue
        if v[0] == 't' and v[1] == 'vset':
            e = mk_eq(v[3], i)
            if e == ONE:
                return v[4]
            if e == ZERO:
                v = v[2]
                continue
        return T('at', v, i)


def cont_load(ip, st, loc):
    """load from an element location ('e', addr, key, kind)"""
    c = ip.load(st, ip.deref_loc(loc[1]))
    k = loc[3]
    if k == 'v':
        return mk_at(c, loc[2])
    if k == 'm':
        return mk_mapget(c, loc[2])
    if k == 's':
        if c[0] == 's' and loc[2][0] == 'c':
            return ip.char_at(c, loc[2])
        return T('chr', c, loc[2])
    return T('init', loc)


def cont_store(ip, st, loc, val, fr, node):
    base = ip.deref_loc(loc[1])
    c = ip.load(st, base)
    k = loc[3]
    if k == 'v':
        if c[0] == 'vec' and loc[2][0] == 'c' and 0 <= loc[2][1] < len(c[1]):
            l = list(c[1])
            l[loc[2][1]] = val
            nv = ('vec', tuple(l))
        elif c[0] == 't' and c[1] == 'vapp' and loc[2] == mk_size(c[2]):
            nv = T('vapp', c[2], val)
        else:
            nv = T('vset', c, loc[2], val)
    elif k == 'm':
        nv = T('mapset', c, loc[2], val)
    else:
        nv = T('strset', c, loc[2], val)
    ip.store(st, base, nv, fr, node)


def elem_loc(ip, st, cont, c, i):
    if c[0] == 'arr':
        return ('e', ip.addr(cont), i)
    return ('e', ip.addr(cont), i, 'v')


def deref(ip, st, v):
    """location designated by *v"""
    if v[0] == 'it':
        return ('e', v[1], v[2], 'v')
    if v[0] == 't' and v[1] == 'mapfind':
        x = mk_mapget(v[3], v[4])
        if x == SETV:
            return ip.tmp(st, v[4])
        return ('x', v)
    if v[0] == 's':
        return ('e', v, ZERO)
    return ip.deref_loc(v)


def member_loc(ip, st, l, e):
    """member of a library type (pair::first ...): l = ('m', addr, key)"""
    a = l[1]
    if a[0] == 't' and a[1] == 'mapfind':
        if e['n'] == 'second':
            return ('e', a[2], a[4], 'm')
        return ip.tmp(st, a[4])
    if a[0] == 'it':
        a2 = ('p', ('e', a[1], a[2], 'v'))
        return ('m', a2, 'pair::' + e['n'])
    return ('m', a, 'pair::' + e['n'])


def snapshot(ip, st, a, cls):
    """record value of the object at address a"""
    cls = strip_type(cls)
    if a[0] == 't':
        # unknown object: keep the value number when nothing has been stored in it
        if not any(k[0] == 'm' and k[1] == a for k in st.mem):
            return T('deref', a)
    out = []
    for key, f in ip.all_fields(cls):
        t = ip.ty(f['t'])
        n = t.get('n', '')
        loc = ('m', a, key)
        if t.get('k') == 'rec' and kind_of_class(n) is None and ip.db.records.get(strip_type(n)):
            out.append((key, snapshot(ip, st, ('p', loc), n)))
        else:
            out.append((key, ip.load(st, loc)))
    if out and all(v == T('fld', out[0][1][2], k) if v[0] == 't' and v[1] == 'fld' and out[0][1][0] == 't' and out[0][1][1] == 'fld' else False for k, v in out):
        return out[0][1][2]
    return ('rec', cls, tuple(out))


def valarg(ip, st, f, i, args):
    """the value of argument i, dereferencing reference parameters"""
    if i >= len(args):
        return None
    ps = f.get('params', [])
    a = args[i]
    if i < len(ps):
        pt = ip.ty(ps[i]['t'])
        n = strip_type(pt.get('n', ''))
        if pt.get('k') == 'rec' and kind_of_class(n) is None and ip.db.records.get(n) is not None:
            return snapshot(ip, st, a, n)
        if pt.get('ref'):
            return ip.load(st, ip.deref_loc(a))
        if pt.get('k') == 'ptr' and a[0] in ('p', 'o') and ('cstr', a) in st.mem:
            return st.mem[('cstr', a)]
        if pt.get('k') == 'ptr' and a[0] == 'p' and a[1][0] == 'e' and a[1][1][0] == 's' and a[1][2][0] == 'c' and 0 <= a[1][2][1] <= len(a[1][1][1]) and a[1][1][1].isascii():
            return ('s', a[1][1][1][a[1][2][1]:])
        if pt.get('k') == 'ptr' and a[0] == 'p':
            t = buf_text(st, a)
            if t is not None:
                return ('s', t)
    return a


def buf_text(st, p, n=None):
    """the text in an allocated buffer of known characters from p on: up to the terminating zero, or n characters"""
    if p[0] == 'p' and p[1][0] == 'e' and len(p[1]) == 4 and p[1][2][0] == 'c':
        b, i = p[1][1], p[1][2][1]
        v = st.mem.get(b[1] if b[0] == 'p' else b)
        cs = None
        if v is not None and v[0] == 'vec' and p[1][3] == 'v' and all(x[0] == 'c' for x in v[1]):
            cs = ''.join(chr(x[1] & 255) for x in v[1][i:])
        elif v is not None and v[0] == 's' and p[1][3] == 's' and v[1].isascii():
            cs = v[1][i:] + '\0'
        if cs is None:
            return None
        if n is not None:
            return cs[:n] if n <= len(cs) else None
        return cs[:cs.index('\0')] if '\0' in cs else None
    if p[0] != 'p' or p[1][0] != 'e' or len(p[1]) != 3 or p[1][2][0] != 'c' or ('bufsize', p[1][1]) not in st.mem:
        return None
    b, i = p[1][1], p[1][2][1]
    out = []
    while n is None or len(out) < n:
        c = st.mem.get(('e', b, ('c', i)))
        if c is None or c[0] != 'c':
            return None
        if c[1] == 0 and n is None:
            break
        out.append(chr(c[1] & 255))
        i += 1
    return ''.join(out)


def ref_or_val(ip, st, node, v):
    """return a fresh reference to value v when the call yields a reference"""
    if node is not None and node.get('gl'):
        return ip.addr(ip.tmp(st, v))
    return v


# ---- constructors -----------------------------------------------------------
def construct(ip, st, fr, n, kc, f, args, node):
    r = ip.client.call(ip, st, fr, f, None, args, node)
    if r is not None:
        return r
    if kc == 'smart':
        if not args:
            return [(st, ZERO)]
        return [(st, valarg(ip, st, f, 0, args))]
    if kc == 'string':
        a = [valarg(ip, st, f, i, args) for i in range(len(args))]
        # drop allocator arguments
        ps = f.get('params', [])
        a = [x for x, p in zip(a, ps) if 'allocator' not in ip.ty(p['t'])['s']]
        if not a:
            return [(st, ('s', ''))]
        if len(a) == 1:
            if a[0][0] == 'arr':
                return [(st, T('str', a[0]))]
            return [(st, a[0])]
        return [(st, str_args(ip, st, f, a))]
    if kc == 'vec':
        a = [valarg(ip, st, f, i, args) for i in range(len(args))]
        ps = f.get('params', [])
        a = [x for x, p in zip(a, ps) if 'allocator' not in ip.ty(p['t'])['s']]
        if not a:
            return [(st, ('vec', ()))]
        if len(a) == 1 and a[0][0] == 'arr':
            return [(st, ('vec', a[0][1]))]
        if len(a) == 1 and (f.get('copy') or a[0][0] in ('vec',)):
            return [(st, a[0])]
        if len(a) == 2 and (a[0][0] == 'it' or args[0][0] in 'ps' and args[1][0] in 'ps'):
            xs = range_items(ip, st, a[0], a[1]) if a[0][0] == 'it' else range_items(ip, st, args[0], args[1])
            if xs is not None:
                return [(st, ('vec', tuple(xs)))]
        if len(a) == 2 and a[0][0] == 'c' and 0 <= a[0][1] <= 256 and ip.ty(ps[0]['t']).get('k') not in ('ptr', 'rec'):
            return [(st, ('vec', (a[1],) * a[0][1]))]
        return [(st, ('t', 'vecctor') + tuple(a))]
    if kc in ('map', 'set'):
        if not args:
            return [(st, EMPTYMAP)]
        v = valarg(ip, st, f, 0, args)
        return [(st, v if f.get('copy') else (EMPTYMAP if len(args) < 2 and v and v[0] != 't' else T('map', v)))]
    if kc == 'pair':
        if len(args) == 2:
            return [(st, ('pair', valarg(ip, st, f, 0, args), valarg(ip, st, f, 1, args)))]
        if len(args) == 1:
            return [(st, valarg(ip, st, f, 0, args))]
        return [(st, ('pair', ZERO, ZERO))]
    if 'iterator' in n and len(args) == 1:
        return [(st, valarg(ip, st, f, 0, args))]
    if 'stringstream' in n:
        if args:
            v = valarg(ip, st, f, 0, args)
            if v and (v[0] == 's' or v[0] == 't'):
                return [(st, v)]
        return [(st, ('s', ''))]
    a = tuple(valarg(ip, st, f, i, args) for i in range(len(args)))
    r = ip.client.opaque(ip, st, fr, f, None, args, node)
    if r is not None:
        return r
    if f.get('copy') and len(a) == 1:
        return [(st, a[0])]
    return [(st, ('t', 'mk', n) + a)]


# ---- methods ------------------------------------------------------------------
def method(ip, st, fr, kc, f, a, args, node):
    n = f['n']
    loc = ip.deref_loc(a)
    v = [valarg(ip, st, f, i, args) for i in range(len(args))]
    h = {'smart': m_smart, 'string': m_string, 'vec': m_vec, 'map': m_map, 'set': m_map,
         'pair': m_pair, 'lib': m_lib}[kc]
    r = h(ip, st, fr, f, n, a, loc, v, args, node)
    if r is not None:
        return r
    return generic(ip, st, fr, f, n, a, loc, v, args, node)


def generic(ip, st, fr, f, n, a, loc, v, args, node):
    r = ip.client.opaque(ip, st, fr, f, a, args, node)
    if r is not None:
        return r
    key = f.get('cls', '').split('<')[0] + '.' + n
    ip.unmodelled[key] = ip.unmodelled.get(key, 0) + 1
    cur = ip.load(st, loc)
    t = ('t', 'm.' + n, cur) + tuple(x for x in v if x is not None)
    if not f.get('const'):
        st.cnt += 1
        ip.store(st, loc, T('upd', n, cur, st.cnt), fr, node)
        t = t + (('c', st.cnt),)
    if node is not None and node.get('gl'):
        if not f.get('const'):
            return [(st, a)]
        return [(st, T('refof', t))]
    return [(st, t)]


def m_smart(ip, st, fr, f, n, a, loc, v, args, node):
    cur = ip.load(st, loc)
    cls = f['cls']
    scoped = 'scoped_' in cls or 'unique_ptr' in cls
    if n in ('get', 'operator->'):
        if n == 'operator->':
            ip.client.deref(ip, st, fr, cur, node, 'smart->')
        return [(st, cur)]
    if n == 'operator*':
        ip.client.deref(ip, st, fr, cur, node, 'smart*')
        return [(st, cur)]
    if n == 'operator[]':
        return [(st, ('p', ip.deref_loc(arith('+', cur, v[0]))))]
    if f['kind'] == 'conv' or n.startswith('operator bool'):
        return [(st, mk_nz(cur))]
    if n == 'operator!':
        return [(st, mk_not(mk_nz(cur)))]
    if n == 'operator=':
        ip.store(st, loc, v[0], fr, node)
        return [(st, a)]
    if n == 'reset':
        states = [st]
        new = v[0] if v and v[0] is not None else ZERO
        if scoped and cur != ZERO and cur != UNDEF and truth_of(cur) is not False:
            c = cls[cls.index('<') + 1:-1]
            if cur != new:
                ip.client.drop(ip, st, fr, loc, cls)
                ip.client.opaque(ip, st, fr, {'qn': 'operator delete', 'n': 'delete', 'params': [], 'file': '', 'line': 0}, None, [cur], node)
        for x in states:
            ip.store(x, loc, new, fr, node)
        return [(x, VOID) for x in states]
    if n in ('release', 'detach'):
        ip.store(st, loc, ZERO, fr, node)
        return [(st, cur)]
    if n == 'swap':
        ol = ip.deref_loc(args[0])
        o = ip.load(st, ol)
        ip.store(st, loc, o, fr, node)
        ip.store(st, ol, cur, fr, node)
        return [(st, VOID)]
    return None


def fold_find(op, s, x, pos):
    if op == 'find':
        return s.find(x, pos) if pos is not None and pos <= len(s) else -1
    if op == 'rfind':
        if len(x) > len(s):
            return -1
        p = len(s) - len(x) if pos is None else min(pos, len(s) - len(x))
        return s.rfind(x, 0, p + len(x))
    last = 'last' in op
    neg = '_not_' in op
    if last:
        rng = range(len(s) - 1 if pos is None else min(pos, len(s) - 1), -1, -1)
    else:
        rng = range(pos or 0, len(s))
    for i in rng:
        if (s[i] in x) != neg:
            return i
    return -1


def _find(op, s, v):
    if s[0] == 's' and v[0][0] == 's' and s[1].isascii() and (len(v) == 1 or len(v) == 2 and v[1][0] == 'c'):
        pos = v[1][1] if len(v) == 2 and v[1] != NPOS else (0 if op == 'find' else None)
        i = fold_find(op, s[1], v[0][1], pos)
        return ('c', i) if i >= 0 else NPOS
    return ('t', op, s) + tuple(x for x in v if x is not None and not (x == ZERO and v.index(x) > 0))


def m_string(ip, st, fr, f, n, a, loc, v, args, node):
    cur = ip.load(st, loc)
    if cur == UNDEF:
        cur = ('s', '')
    if n in ('size', 'length'):
        return [(st, mk_size(cur))]
    if n == 'empty':
        return [(st, mk_not(mk_nz(mk_size(cur))))]
    if n in ('c_str', 'data'):
        return [(st, cur)]
    if n in ('operator=', 'assign'):
        ip.store(st, loc, str_args(ip, st, f, v), fr, node)
        return [(st, a)]
    if n in ('operator+=', 'append', 'push_back'):
        ip.store(st, loc, mk_cat(cur, str_args(ip, st, f, v)), fr, node)
        return [(st, a)]
    if n == 'clear':
        ip.store(st, loc, ('s', ''), fr, node)
        return [(st, VOID)]
    if n in ('operator[]', 'at', 'front', 'back'):
        i = v[0] if v else (ZERO if n == 'front' else arith('-', mk_size(cur), ONE))
        ip.client.deref(ip, st, fr, ('idx', 'string', a, i, cur), node, 'string' + ('.at' if n == 'at' else '[]'))
        return [(st, ('p', ('e', a, i, 's')))]
    if n in ('find', 'rfind', 'find_first_of', 'find_last_of', 'find_first_not_of', 'find_last_not_of'):
        v2 = list(v)
        if ip.ty(f['params'][0]['t']).get('k') == 'int' and v2[0][0] == 'c':
            v2[0] = chr_str(v2[0])
        return [(st, _find(n, cur, v2))]
    if n == 'compare' and len(v) == 1 and cur[0] == 's' and v[0][0] == 's':
        return [(st, ('c', (cur[1] > v[0][1]) - (cur[1] < v[0][1])))]
    if n == 'compare' and len(v) == 3 and cur[0] == 's' and v[2][0] == 's' and v[0][0] == 'c' and v[1][0] == 'c' and v[0][1] <= len(cur[1]) and cur[1].isascii():
        y = cur[1][v[0][1]:v[0][1] + v[1][1]]
        return [(st, ('c', (y > v[2][1]) - (y < v[2][1])))]
    if n == 'compare' and len(v) in (4, 5) and cur[0] == 's' and v[2][0] == 's' and all(x[0] == 'c' for x in v[:2] + v[3:]) and v[0][1] <= len(cur[1]) and cur[1].isascii():
        y = cur[1][v[0][1]:v[0][1] + v[1][1]]
        z = v[2][1][:v[3][1]] if len(v) == 4 else v[2][1][v[3][1]:v[3][1] + v[4][1]]
        if len(v) == 5 or v[3][1] <= len(v[2][1]):
            return [(st, ('c', (y > z) - (y < z)))]
    if n == 'compare' and len(v) == 1:
        return [(st, T('strcmp', cur, v[0]))]
    if n == 'substr':
        return [(st, mk_sub(cur, v[0] if v else ZERO, v[1] if len(v) > 1 else NPOS))]
    if n == 'swap':
        ol = ip.deref_loc(args[0])
        o = ip.load(st, ol)
        ip.store(st, loc, o, fr, node)
        ip.store(st, ol, cur, fr, node)
        return [(st, VOID)]
    if n == 'begin':
        return [(st, ('it', a, ZERO))]
    if n == 'end':
        return [(st, ('it', a, mk_size(cur)))]
    if n in ('reserve', 'shrink_to_fit'):
        return [(st, VOID)]
    if cur[0] == 's' and cur[1].isascii() and all(x is None or x[0] in ('c', 's') for x in v):
        w = [x[1] for x in v if x is not None]
        r = None
        if n == 'pop_back' and cur[1]:
            r = cur[1][:-1]
        elif n == 'resize' and len(w) == 1 and w[0] <= len(cur[1]):
            r = cur[1][:w[0]]
        elif n == 'erase' and w and isinstance(w[0], int) and w[0] <= len(cur[1]) and all(isinstance(x, int) for x in w):
            r = cur[1][:w[0]] + ('' if len(w) == 1 or w[1] == NPOS[1] else cur[1][w[0] + w[1]:])
        elif n == 'insert' and len(w) == 2 and isinstance(w[0], int) and isinstance(w[1], str) and w[0] <= len(cur[1]):
            r = cur[1][:w[0]] + w[1] + cur[1][w[0]:]
        elif n == 'replace' and len(w) == 3 and isinstance(w[0], int) and isinstance(w[1], int) and isinstance(w[2], str) and w[0] <= len(cur[1]):
            r = cur[1][:w[0]] + w[2] + cur[1][w[0] + w[1]:]
        if r is not None:
            ip.store(st, loc, ('s', r), fr, node)
            return [(st, a if node is not None and node.get('gl') else VOID)]
    if n in ('erase', 'insert', 'replace', 'resize', 'pop_back'):
        ip.store(st, loc, ('t', 'str.' + n, cur) + tuple(x for x in v if x is not None), fr, node)
        return [(st, a if node is not None and node.get('gl') else VOID)]
    if f.get('const'):
        return [(st, ref_or_val(ip, st, node, ('t', 'str.' + n, cur) + tuple(x for x in v if x is not None)))]
    return None


def mk_sub(cur, pos, cnt):
    if cnt is None:
        cnt = NPOS
    if cur[0] == 's' and pos[0] == 'c' and pos[1] > len(cur[1]) and cur[1].isascii():
        return T('out_of_range', cur, pos)
    if cur[0] == 's' and pos[0] == 'c' and cnt[0] == 'c' and cur[1].isascii():
        return ('s', cur[1][pos[1]:pos[1] + cnt[1]])
    if pos == ZERO and cnt == NPOS:
        return cur
    return T('substr', cur, pos, cnt)


def str_args(ip, st, f, v):
    """text given to a string constructor, assign or append"""
    if len(v) == 1:
        return chr_str(v[0]) if ip.ty(f['params'][0]['t']).get('k') == 'int' else v[0]
    if len(v) == 2:
        if v[0][0] == 'it' and v[1][0] == 'it' and v[0][1] == v[1][1]:
            return mk_sub(ip.load(st, ip.deref_loc(v[0][1])), v[0][2], arith('-', v[1][2], v[0][2]))
        if ip.ty(f['params'][0]['t']).get('k') == 'int':
            if v[0][0] == 'c' and v[1][0] == 'c' and v[0][1] < 4096:
                return ('s', chr(v[1][1] & 255) * v[0][1])
            return strrep(v[0], v[1])
        if 'basic_string' in ip.ty(f['params'][0]['t']).get('n', ''):
            return mk_sub(v[0], v[1], NPOS)
        if v[0][0] == 's' and v[1][0] == 's' and v[0][1].endswith(v[1][1]) and len(f['params']) > 1 and ip.ty(f['params'][1]['t']).get('k') == 'ptr':
            return ('s', v[0][1][:len(v[0][1]) - len(v[1][1])])
        return strn(v[0], v[1])
    return mk_sub(v[0], v[1], v[2])


def strn(x, n):
    """the first n characters of a C string / buffer x"""
    if n == mk_size(x):
        return x
    if x[0] == 's' and n[0] == 'c' and 0 <= n[1] <= len(x[1]):
        return ('s', x[1][:n[1]])
    return T('strn', x, n)


def strrep(n, c):
    if n == ONE:
        return chr_str(c)
    return T('strrep', n, c)


def chr_str(x):
    if x[0] == 'c' and isinstance(x[1], int) and 0 < (x[1] & 255) < 128:
        return ('s', chr(x[1] & 255))
    return T('ch', x)


def m_vec(ip, st, fr, f, n, a, loc, v, args, node):
    cur = ip.load(st, loc)
    if cur == UNDEF:
        cur = ('vec', ())
    cls = f['cls']
    isq = cls.startswith('std::queue<')
    if n == 'size':
        return [(st, mk_size(cur))]
    if n == 'empty':
        return [(st, mk_not(mk_nz(mk_size(cur))))]
    if n in ('push_back', 'push', 'emplace_back', 'emplace'):
        x = v[0] if v else ZERO
        nv = ('vec', cur[1] + (x,)) if cur[0] == 'vec' else T('vapp', cur, x)
        ip.client.call(ip, st, fr, {'qn': '<vector>::push_back', 'n': 'push_back', 'params': [], 'kind': 'model', 'file': '', 'line': 0}, a, [x], node)
        ip.store(st, loc, nv, fr, node)
        return [(st, VOID)]
    if n in ('operator[]', 'at', 'back', 'front', 'top'):
        if n in ('operator[]', 'at'):
            i = v[0]
        elif n == 'front':
            i = ZERO
        else:
            i = arith('-', mk_size(cur), ONE)
            if cur[0] == 't' and cur[1] == 'vapp':
                i = mk_size(cur[2])
        ip.client.deref(ip, st, fr, ('idx', 'vec', a, i, cur), node, 'vec.' + n)
        return [(st, ('p', ('e', a, i, 'v')))]
    if n in ('pop_back', 'pop'):
        ip.client.deref(ip, st, fr, ('idx', 'vec', a, ZERO, cur), node, 'vec.' + n)
        if cur[0] == 'vec' and cur[1]:
            nv = ('vec', cur[1][1:] if isq else cur[1][:-1])
        elif cur[0] == 't' and cur[1] == 'vapp' and not isq:
            nv = cur[2]
        else:
            nv = T('vpop', cur)
        ip.store(st, loc, nv, fr, node)
        return [(st, VOID)]
    if n == 'pop_front':
        nv = ('vec', cur[1][1:]) if cur[0] == 'vec' and cur[1] else T('vpopf', cur)
        ip.store(st, loc, nv, fr, node)
        return [(st, VOID)]
    if n == 'clear':
        ip.store(st, loc, ('vec', ()), fr, node)
        return [(st, VOID)]
    if n in ('begin', 'cbegin'):
        return [(st, ('it', a, ZERO))]
    if n in ('end', 'cend'):
        return [(st, ('it', a, mk_size(cur)))]
    if n == 'operator=':
        x = v[0]
        if x[0] == 'arr':
            x = ('vec', x[1])
        ip.store(st, loc, x, fr, node)
        return [(st, a)]
    if n == 'swap':
        ol = ip.deref_loc(args[0])
        o = ip.load(st, ol)
        ip.store(st, loc, o, fr, node)
        ip.store(st, ol, cur, fr, node)
        return [(st, VOID)]
    if n in ('reserve', 'shrink_to_fit'):
        return [(st, VOID)]
    if n == 'erase':
        i = v[0][2] if v and v[0][0] == 'it' else (v[0] if v else ZERO)
        if cur[0] == 'vec' and len(v) == 1 and i[0] == 'c' and 0 <= i[1] < len(cur[1]):
            nv = ('vec', cur[1][:i[1]] + cur[1][i[1] + 1:])
        else:
            nv = ('t', 'verase', cur) + tuple(x for x in v)
        ip.store(st, loc, nv, fr, node)
        return [(st, ('it', a, i))]
    if n in ('insert', 'resize', 'assign'):
        if n == 'resize' and cur == ('vec', ()) and v and v[0] == ZERO:
            return [(st, VOID)]
        nv = ('t', 'v' + n, cur) + tuple(x for x in v if x is not None)
        ri = ZERO
        if n == 'insert' and v and v[0][0] == 'it':
            ri = v[0][2]
        if n == 'resize' and cur[0] == 'vec' and v[0][0] == 'c' and 0 <= v[0][1] <= 4096:
            k = v[0][1] - len(cur[1])
            if k <= 0:
                nv = ('vec', cur[1][:v[0][1]])
            elif len(v) > 1 and v[1] is not None:
                nv = ('vec', cur[1] + (v[1],) * k)
        if n == 'insert' and cur[0] == 'vec' and v and v[0][0] == 'it' and v[0][2][0] == 'c' and 0 <= v[0][2][1] <= len(cur[1]):
            i = v[0][2][1]
            xs = None
            if len(v) == 2:
                xs = (v[1],)
            elif len(v) == 3:
                xs = range_items(ip, st, v[1], v[2])
            if xs is not None:
                nv = ('vec', cur[1][:i] + tuple(xs) + cur[1][i:])
        if n == 'assign' and len(v) == 2:
            xs = range_items(ip, st, v[0], v[1])
            if xs is not None:
                nv = ('vec', tuple(xs))
        ip.store(st, loc, nv, fr, node)
        return [(st, ('it', a, ri) if n == 'insert' else VOID)]
    return None


def range_locs(a, b):
    """element locations of the iterator range [a, b)"""
    if a[0] == 'it' and b[0] == 'it' and a[1] == b[1] and a[2][0] == 'c' and b[2][0] == 'c' \
            and 0 <= a[2][1] <= b[2][1] <= a[2][1] + 64:
        return [('e', a[1], ('c', i), 'v') for i in range(a[2][1], b[2][1])]
    if a[0] in 'ps' and b[0] in 'ps':
        (x, i), (y, j) = ptr_index(a), ptr_index(b)
        if x == y and x[0] != 'elems' and i[0] == 'c' and j[0] == 'c' and 0 <= i[1] <= j[1] <= i[1] + 64:
            return [('e', x, ('c', k)) for k in range(i[1], j[1])]
    return None


def range_items(ip, st, a, b):
    ls = range_locs(a, b)
    if ls and len(ls[0]) == 3 and ls[0][1][0] == 's':
        t = ls[0][1][1]
        return [('c', ord(t[l[2][1]]) if l[2][1] < len(t) else 0) for l in ls] if ls[-1][2][1] <= len(t) and all(ord(x) < 256 for x in t) else None
    return None if ls is None else [ip.load(st, l) for l in ls]


def map_range(ip, st, a, b):
    """the iterators of the range [a, b) of a map with known keys"""
    out = []
    while a != b:
        if a[0] != 't' or a[1] != 'mapfind' or b[0] != 't' or len(out) > 64:
            return None
        out.append(a)
        a = map_step(ip, st, a)
        if a is None:
            return None
    return out


def functor(ip, st, f, arg, v):
    """the call operator of a function object and the object's address"""
    ps = f.get('params', [])
    c = strip_type(ip.ty(ps[2]['t']).get('n', '')) if len(ps) > 2 else ''
    r = ip.db.records.get(c)
    if r is None:
        return None
    gs = [ip.db.functions[m] for m in r['methods'] if ip.db.functions[m]['n'] == 'operator()' and 'body' in ip.db.functions[m]]
    if len(gs) != 1 or len(gs[0]['params']) != 1:
        return None
    if v[0] == 'rec':
        l = ip.tmp(st, v)
        ip.store(st, l, v)
        return gs[0], ('p', l)
    return (gs[0], arg) if arg[0] == 'p' else None


ALGOS = ('find', 'count', 'find_if', 'find_if_not', 'count_if', 'any_of', 'all_of', 'none_of', 'for_each', 'distance',
         'next', 'prev', 'advance', 'copy', 'fill', 'reverse')


def m_algo(ip, st, fr, f, alg, args, node):
    v = [valarg(ip, st, f, i, args) for i in range(len(args))]
    if alg in ('next', 'prev') and v[0][0] == 'it':
        d = v[1] if len(v) > 1 and v[1] is not None else ONE
        return [(st, arith('+' if alg == 'next' else '-', v[0], d))]
    if alg == 'advance' and v[0][0] == 'it':
        ip.store(st, ip.deref_loc(args[0]), arith('+', v[0], v[1]), fr, node)
        return [(st, VOID)]
    if len(v) < 2:
        return None
    if alg == 'distance' and v[0][0] == 'it' and v[1][0] == 'it' and v[0][1] == v[1][1]:
        return [(st, arith('-', v[1], v[0]))]
    ls = range_locs(v[0], v[1])
    if ls is None and alg in ('for_each', 'find_if', 'count_if', 'any_of', 'all_of', 'none_of'):
        its = map_range(ip, st, v[0], v[1])
        if its is None:
            return None
        ls = [('x', it) for it in its]
    else:
        its = None
    if ls is None:
        return None
    if alg == 'copy' and len(v) == 3:
        if v[2][0] == 'it' and v[2][2][0] == 'c':
            for i, l in enumerate(ls):
                ip.store(st, ('e', v[2][1], ('c', v[2][2][1] + i), 'v'), ip.load(st, l), fr, node)
            return [(st, arith('+', v[2], ('c', len(ls))))]
        return None
    if alg == 'fill' and len(v) == 3:
        for l in ls:
            ip.store(st, l, v[2], fr, node)
        return [(st, VOID)]
    if alg == 'reverse':
        xs = [ip.load(st, l) for l in ls]
        for l, x in zip(ls, reversed(xs)):
            ip.store(st, l, x, fr, node)
        return [(st, VOID)]
    if len(v) != 3:
        return None

    def test(s, l):
        """-> [(state, bool)]"""
        if alg in ('find', 'count'):
            return ip.split(s, mk_eq(ip.load(s, l), v[2]), fr, node)
        a0 = ip.addr(l)
        cf = ip.db.functions.get(v[2][1]) if v[2][0] in ('cl', 'f') else None
        if cf is not None and cf.get('params') and not ip.ty(cf['params'][0]['t']).get('ref'):
            a0 = ip.load(s, l)
        out = []
        fo = functor(ip, s, f, args[2], v[2]) if cf is None else None
        if fo is not None:
            if not ip.ty(fo[0]['params'][0]['t']).get('ref'):
                a0 = ip.load(s, l)
            rs = ip.dispatch(s, fo[0], fo[1], [a0], fr, node)
        else:
            rs = ip.call_closure(s, v[2], [a0], fr, node)
        for s2, r in rs:
            if alg == 'for_each':
                out.append((s2, True))
            else:
                out += ip.split(s2, r, fr, node)
        return out

    stop = {'find': True, 'find_if': True, 'find_if_not': False, 'any_of': True, 'all_of': False, 'none_of': True}.get(alg)
    done = []
    live = [(st, 0)]
    for i, l in enumerate(ls):
        nxt = []
        for s, c in live:
            for s2, r in test(s, l):
                if stop is not None and r == stop:
                    if its is not None and alg.startswith('find'):
                        done.append((s2, its[i]))
                    elif alg.startswith('find'):
                        done.append((s2, ('it', v[0][1], ('c', v[0][2][1] + i))))
                    else:
                        done.append((s2, ONE if alg == 'any_of' else ZERO))
                else:
                    nxt.append((s2, c + (1 if r else 0)))
        live = nxt
    for s, c in live:
        if alg.startswith('find'):
            done.append((s, v[1]))
        elif alg.startswith('count'):
            done.append((s, ('c', c)))
        elif alg == 'for_each':
            done.append((s, v[2]))
        else:
            done.append((s, ZERO if alg == 'any_of' else ONE))
    return done


def m_map(ip, st, fr, f, n, a, loc, v, args, node):
    cur = ip.load(st, loc)
    if cur == UNDEF:
        cur = EMPTYMAP
    if n == 'find':
        return [(st, T('mapfind', a, cur, v[0]))]
    if n in ('end', 'cend'):
        return [(st, T('end', a, cur))]
    if n in ('begin', 'cbegin'):
        if cur == EMPTYMAP:
            return [(st, T('end', a, cur))]
        xs = map_items(cur)
        if xs is not None:
            return [(st, T('mapfind', a, cur, xs[0][0]) if xs else T('end', a, cur))]
        return [(st, T('begin', a, cur))]
    if n == 'operator[]':
        return [(st, ('p', ('e', a, v[0], 'm')))]
    if n == 'at':
        return [(st, ('p', ('e', a, v[0], 'm')))]
    if n == 'count':
        return [(st, mk_mapmem(cur, v[0]))]
    if n in ('size',):
        if cur == EMPTYMAP:
            return [(st, ZERO)]
        xs = map_items(cur)
        if xs is not None:
            return [(st, ('c', len(xs)))]
        return [(st, mk_size(cur))]
    if n == 'empty':
        if cur == EMPTYMAP:
            return [(st, ONE)]
        if cur[0] == 't' and cur[1] == 'mapset':
            return [(st, ZERO)]
        return [(st, mk_not(mk_nz(mk_size(cur))))]
    if n == 'clear':
        ip.store(st, loc, EMPTYMAP, fr, node)
        return [(st, VOID)]
    if n == 'insert' and len(v) == 1:
        p = v[0]
        if kind_of_class(f['cls']) == 'set':
            nv = cur if mk_mapmem(cur, p) == ONE else T('mapset', cur, p, SETV)
            ip.store(st, loc, nv, fr, node)
            return [(st, ('pair', T('mapfind', a, nv, p), mk_not(mk_mapmem(cur, p))))]
        if p[0] == 'pair':
            out = []
            for x, b in ip.split(st, mk_mapmem(cur, p[1]), fr, node):
                if b and 'multimap' not in f['cls']:
                    out.append((x, ('pair', T('mapfind', a, cur, p[1]), ZERO)))
                else:
                    nv = T('mapset', cur, p[1], p[2])
                    ip.store(x, loc, nv, fr, node)
                    out.append((x, ('pair', T('mapfind', a, nv, p[1]), ONE)))
            return out
        nv = T('mapins', cur, p)
        ip.store(st, loc, nv, fr, node)
        return [(st, ip.fresh(st, 'mapins'))]
    if n == 'erase':
        k = v[0]
        if k[0] == 't' and k[1] == 'mapfind':
            k = k[4]
        elif len(v) == 1 and not (k[0] == 't' and k[1] in ('iv', 'lw', 'begin')):
            pass
        else:
            k = T('iterkey', k)
        ip.store(st, loc, T('mapdel', cur, k), fr, node)
        if v[0] is k:
            return [(st, mk_mapmem(cur, k))]
        return [(st, ONE)]
    if n == 'operator=':
        ip.store(st, loc, v[0], fr, node)
        return [(st, a)]
    if n == 'swap':
        ol = ip.deref_loc(args[0])
        o = ip.load(st, ol)
        ip.store(st, loc, o, fr, node)
        ip.store(st, ol, cur, fr, node)
        return [(st, VOID)]
    return None


def m_pair(ip, st, fr, f, n, a, loc, v, args, node):
    if n == 'operator=':
        ip.store(st, loc, v[0], fr, node)
        return [(st, a)]
    return None


def m_lib(ip, st, fr, f, n, a, loc, v, args, node):
    cls = f.get('cls', '')
    cur = ip.load(st, loc)
    if 'iterator' in cls:
        if n == 'operator*':
            return [(st, ip.addr(deref(ip, st, cur)))]
        if n == 'operator->':
            if cur[0] == 'it':
                return [(st, ('p', ('e', cur[1], cur[2], 'v')))]
            return [(st, cur)]
        if n in ('operator++', 'operator--'):
            nv = map_step(ip, st, cur, n == 'operator--')
            if nv is None:
                nv = mk_add(cur, ONE if n == 'operator++' else ('c', -1))
            ip.store(st, loc, nv, fr, node)
            return [(st, a if node.get('gl') else cur)]
        if n in ('operator+', 'operator-') and v:
            if n == 'operator-' and v[0][0] == 'it':
                return [(st, arith('-', cur, v[0]))]
            return [(st, arith(n[-1], cur, v[0]))]
        if n in ('operator+=', 'operator-='):
            ip.store(st, loc, arith(n[8], cur, v[0]), fr, node)
            return [(st, a)]
        if n == 'operator[]':
            if cur[0] == 'it':
                return [(st, ('p', ('e', cur[1], mk_add(cur[2], v[0]), 'v')))]
        if n == 'operator=':
            ip.store(st, loc, v[0], fr, node)
            return [(st, a)]
        if n in ('operator==', 'operator!='):
            r = iter_eq(cur, v[0])
            return [(st, r if n == 'operator==' else mk_not(r))]
        if n == 'base':
            return [(st, ref_or_val(ip, st, node, cur))]
    if 'stringstream' in cls and n == 'str':
        if v and v[0] is not None:
            ip.store(st, loc, v[0], fr, node)
            return [(st, VOID)]
        return [(st, cur)]
    if 'stream' in cls and n == 'operator<<':
        x = v[0]
        if ip.ty(f['params'][0]['t']).get('k') == 'ptr' and 'function' in str(ip.ty(f['params'][0]['t'])) or x[0] == 'f':
            return [(st, a)]
        out_text(ip, st, fr, a, x, ip.ty(f['params'][0]['t']), node, f)
        return [(st, a)]
    if 'stream' in cls and n == 'write':
        out_text(ip, st, fr, a, strn(v[0], v[1]), {'k': 'str'}, node, f)
        return [(st, a)]
    if 'stream' in cls and n == 'put':
        out_text(ip, st, fr, a, chr_str(v[0]), {'k': 'str'}, node, f)
        return [(st, a)]
    if n == 'operator=' and len(v) == 1:
        ip.store(st, loc, v[0], fr, node)
        return [(st, a)]
    if 'initializer_list' in cls:
        if n == 'size':
            return [(st, mk_size(cur))]
    return None


def out_text(ip, st, fr, a, x, t, node, f):
    r = ip.client.call(ip, st, fr, {'qn': '<ostream>::write', 'n': 'write', 'params': [], 'kind': 'model', 'file': '', 'line': 0, 'arg_t': t}, a, [x], node)
    loc = ip.deref_loc(a)
    k = t.get('k')
    if k == 'int' and t.get('w') != 8 and x[0] == 'c':
        x = ('s', str(x[1]))
    elif k in ('int', 'enum', 'bool', 'flt') and t.get('w') != 8:
        x = T('tostr', ('s', t.get('n', '')), x)
    elif k == 'int' and t.get('w') == 8:
        x = chr_str(x)
    cur = ip.load(st, loc)
    if cur == UNDEF:
        cur = ('s', '')
    ip.store(st, loc, mk_cat(cur, x), fr, node)


def iter_eq(a, b):
    for x, y in ((a, b), (b, a)):
        if x[0] == 't' and x[1] == 'mapfind' and y[0] == 't' and y[1] == 'end' and x[2] == y[2]:
            return mk_not(mk_mapmem(x[3], x[4]))
    if a[0] == 't' and b[0] == 't' and a[2:3] == b[2:3]:
        if a[1] == 'end' and b[1] == 'end':
            return ONE
        if a[1] == 'mapfind' and b[1] == 'mapfind' and mk_mapmem(a[3], a[4]) == ONE and mk_mapmem(b[3], b[4]) == ONE:
            return mk_eq(a[4], b[4])
    return mk_eq(a, b)


PURE = {'strcmp', 'strncmp', 'strlen', 'strchr', 'strrchr', 'strstr', 'isspace', 'isdigit', 'isalpha', 'isalnum', 'tolower', 'toupper',
        'isxdigit', 'atoi', 'atof', 'fabs', 'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'atan2', 'sqrt', 'pow', 'floor', 'ceil',
        'fmod', 'abs', 'strcasecmp', 'strncasecmp', 'std::abs', 'std::isnan', 'std::isinf', 'isnan', 'isinf', 'memcmp',
        'std::sin', 'std::cos', 'std::sqrt', 'std::atan2', 'std::pow', 'std::floor', 'std::ceil', 'std::fabs', 'std::tan', 'std::asin', 'std::acos', 'log', 'std::log', 'trunc', 'fmin', 'fmax'}


def function(ip, st, fr, f, this, args, node):
    """free functions without a body in the repository; None = unmodelled"""
    qn = f['qn']
    op = f.get('op')
    v = None
    base = qn.split('<')[0]
    if op and f['kind'] == 'fn':
        v = [valarg(ip, st, f, i, args) for i in range(len(args))]
        if len(v) == 2:
            a, b = v
            if op == '==':
                return [(st, iter_eq(a, b))]
            if op == '!=':
                return [(st, mk_not(iter_eq(a, b)))]
            t0 = ip.ty(f['params'][0]['t'])
            if op == '<<' and 'stream' in t0['s']:
                if b[0] == 'f':
                    return [(st, args[0])]
                out_text(ip, st, fr, args[0], b, ip.ty(f['params'][1]['t']), node, f)
                return [(st, args[0])]
            if op in ('<', '>', '<=', '>='):
                return [(st, ip.binop(op, a, b))]
            if op == '+':
                t1 = ip.ty(f['params'][1]['t'])
                if 'basic_string' in t0['s'] or 'basic_string' in t1['s']:
                    if t1.get('k') == 'int':
                        b = chr_str(b)
                    if t0.get('k') == 'int':
                        a = chr_str(a)
                    return [(st, mk_cat(a, b))]
                return [(st, arith('+', a, b))]
            if op == '-':
                return [(st, arith('-', a, b))]
            if op in ('&', '|', '^') and t0.get('k') == 'enum':
                return [(st, arith(op, a, b))]
    if base in ('strcmp', 'strcasecmp'):
        v = args
        if base == 'strcmp':
            return [(st, T('strcmp', args[0], args[1]))]
    if base == 'strlen':
        return [(st, mk_size(args[0]))]
    if base in PURE:
        if ip.client.opaque is not None:
            r = ip.client.opaque(ip, st, fr, f, this, args, node)
            if r is not None:
                return r
        vals = [valarg(ip, st, f, i, args) for i in range(len(args))]
        # string/buffer pointers: the value number of the pointer suffices
        return [(st, ('t', 'call', base) + tuple(vals))]
    if base in ('std::move', 'std::forward', 'std::__addressof', 'std::addressof', 'std::as_const'):
        return [(st, args[0])]
    if base.startswith('std::') and base[5:] in ALGOS:
        r = m_algo(ip, st, fr, f, base[5:], args, node)
        if r is not None:
            return r
    if base == 'std::make_pair':
        v = [valarg(ip, st, f, i, args) for i in range(len(args))]
        return [(st, ('pair', v[0], v[1]))]
    if base in ('std::min', 'std::max') and len(args) >= 2:
        a, b = valarg(ip, st, f, 0, args), valarg(ip, st, f, 1, args)
        if a[0] == 'c' and b[0] == 'c':
            r = a if (a[1] < b[1]) == (base == 'std::min') else b
        else:
            r = T(base[5:], a, b)
        return [(st, ref_or_val(ip, st, node, r))]
    if base == 'std::swap' and len(args) == 2:
        la, lb = ip.deref_loc(args[0]), ip.deref_loc(args[1])
        x, y = ip.load(st, la), ip.load(st, lb)
        ip.store(st, la, y, fr, node)
        ip.store(st, lb, x, fr, node)
        return [(st, VOID)]
    if base in ('boost::static_pointer_cast', 'boost::dynamic_pointer_cast', 'boost::const_pointer_cast',
                'boost::get_pointer', 'boost::reinterpret_pointer_cast'):
        return [(st, valarg(ip, st, f, 0, args))]
    if base == 'boost::swap':
        return None
    if base in ('std::endl', 'std::flush'):
        return [(st, args[0])]
    return None
