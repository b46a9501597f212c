"""Abstract interpreter over the program database.

Domain.  Values are hashable tuples
   ('c', n)            integer / bool / char / float constant, null pointer = ('c', 0)
   ('s', text)         string constant (C string or std::string)
   ('o', n)            address of an abstract heap object allocated by the analysed code
   ('p', loc)          address of a location
   ('f', fnid)         function;  ('cl', id) closure
   ('vec', (v,...))    std::vector/deque/stack/queue with known contents
   ('it', vec, i)      iterator into a known vector
   ('pair', a, b)
   ('t', op, args...)  value number of an unknown: equal terms denote equal values
   ('u',)              undefined (uninitialised)
Locations
   ('v', frame, id)  ('g', id)  ('m', addr, 'Class::field')  ('e', addr, idx)  ('x', addr)
A state is memory + a set of facts (branch conditions known true/false on value
numbers) + the client's trace/typestate.  Branches on unknown conditions fork the
state; states are re-joined at control-flow joins when they agree on memory and on
the client trace (facts are intersected); loops whose condition is undecided are
solved by widening to a fixpoint (induction variables are recognised).
No solver is used and nothing is executed.
"""
import os
import sys
from collections import OrderedDict
sys.setrecursionlimit(100000)

ZERO = ('c', 0)
ONE = ('c', 1)
UNDEF = ('u',)
VOID = ('c', 0)


class Budget(Exception):
    pass


COVER = set() if os.environ.get('VERIF_COVER') else None    # development: the functions interpreted


def T(op, *args):
    return ('t', op) + args


def isc(v):
    return v[0] in ('c', 's')


def truth_of(v):
    """True/False/None for the truthiness of a value"""
    k = v[0]
    if k == 'c':
        return bool(v[1])
    if k in ('o', 'p', 'f', 'cl', 's', 'fld'):
        return True
    return None


def mentions(term, pred):
    st = [term]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            if pred(x):
                return True
            st.extend(y for y in x if isinstance(y, (tuple, frozenset)))
        elif isinstance(x, frozenset):
            st.extend(x)
    return False


def subterms(term):
    st = [term]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            yield x
            st.extend(y for y in x if isinstance(y, (tuple, frozenset)))
        elif isinstance(x, frozenset):
            st.extend(x)


def mk_not(c):
    if c[0] == 'c':
        return ('c', 0 if c[1] else 1)
    if c[0] == 't' and c[1] == 'not':
        return c[2]
    tr = truth_of(c)
    if tr is not None:
        return ('c', 0 if tr else 1)
    if is_bool(c):
        return T('not', c)
    return T('not', mk_nz(c))


BOOLOPS = ('not', 'nz', 'eq', 'lt', 'and', 'or')


def is_bool(v):
    return v[0] == 't' and v[1] in BOOLOPS


def mk_nz(v):
    tr = truth_of(v)
    if tr is not None:
        return ONE if tr else ZERO
    if is_bool(v):
        return v
    if v[0] == 'vec':
        return ONE
    if v[0] == 't':
        if v[1] == 'strcmp':
            return mk_not(mk_eq(v[2], v[3]))
        if v[1] == 'ite':
            a, b = truth_of(v[3]), truth_of(v[4])
            if a is not None and b is not None:
                if a == b:
                    return ONE if a else ZERO
                return mk_nz(v[2]) if a else mk_not(mk_nz(v[2]))
    return T('nz', v)


def mk_size(s):
    if s[0] == 's':
        return ('c', len(s[1].encode('utf-8', 'replace')))
    if s[0] == 'vec':
        return ('c', len(s[1]))
    if s[0] == 't' and s[1] == 'vapp':
        return mk_add(mk_size(s[2]), ONE)
    if s[0] == 't' and s[1] == 'strn':
        return s[3]
    if s[0] == 't' and s[1] in ('strrep', 'vecctor') and len(s) in (3, 4) and (s[1] == 'strrep' or s[2][0] in ('c', 't')):
        return s[2]
    return T('size', s)


def text_ptrs(a, b):
    """two pointers into the same constant text?"""
    return a[0] == 's' and b[0] == 'p' and b[1][0] == 'e' and b[1][1] == a or b[0] == 's' and a[0] == 'p' and a[1][0] == 'e' and a[1][1] == b


def ptr_index(p):
    """(array, index) of a pointer value"""
    if p[0] == 's':
        return p, ZERO
    if p[1][0] == 'e' and len(p[1]) == 3:
        return p[1][1], p[1][2]
    if p[1][0] == 'e' and len(p[1]) == 4 and p[1][3] in ('v', 's'):
        return ('elems', p[1][1], p[1][3]), p[1][2]
    return p, ZERO


def mk_eq(a, b):
    if a == b:
        return ONE
    if a[0] == 't' and b[0] == 't' and a[1] == 'KEY' and b[1] == 'KEY':
        return ZERO
    if a[0] == 'p' and b[0] == 'p' or text_ptrs(a, b):
        ai, bi = ptr_index(a), ptr_index(b)
        if ai[0] == bi[0]:
            return mk_eq(ai[1], bi[1])
    if a[0] == 'c' and b[0] == 'c':
        return ONE if a[1] == b[1] else ZERO
    if a[0] == 's' and b[0] == 's':
        return ONE if a[1] == b[1] else ZERO
    if b[0] in ('c',) or (b[0] in ('s', 'o', 'p') and a[0] not in ('c',)):
        pass
    elif a[0] in ('c', 's', 'o', 'p'):
        a, b = b, a
    elif repr(a) > repr(b):
        a, b = b, a
    if b == ZERO:
        return mk_not(mk_nz(a))
    if b == ('s', ''):
        return mk_not(mk_nz(mk_size(a)))
    if a[0] in ('o', 'p', 'f', 'cl') and b[0] in ('o', 'p', 'f', 'cl'):
        if a[0] == 'o' or b[0] == 'o' or (a[0] == 'p' and b[0] == 'p' and a[1][0] in 'vg' and b[1][0] in 'vg'):
            return ZERO
    if b[0] == 'o' and a[0] == 't' and a[1] in ('OBJ', 'init'):
        return ZERO      # an object allocated during the analysed run is not one that was there before
    if a[0] == 't' and b[0] == 't' and a[1] == 'OBJ' and b[1] == 'OBJ':
        return ZERO      # the clients' named objects are distinct
    if a[0] == 'it' and b[0] == 'it' and a[1] == b[1]:
        return mk_eq(a[2], b[2])
    if is_bool(a) and b[0] == 'c':
        return a if b[1] == 1 else ZERO
    if b[0] == 'c' and a[0] == 't' and a[1] == '+' and a[3][0] == 'c':
        return mk_eq(a[2], ('c', b[1] - a[3][1]))
    return T('eq', a, b)


def mk_lt(a, b, fold=True):
    if a[0] == 'p' and b[0] == 'p' or text_ptrs(a, b):
        ai, bi = ptr_index(a), ptr_index(b)
        if ai[0] == bi[0]:
            return mk_lt(ai[1], bi[1], fold)
    if a[0] == 'c' and b[0] == 'c':
        return ONE if a[1] < b[1] else ZERO
    if a == b:
        return ZERO
    if a[0] == 'it' and b[0] == 'it' and a[1] == b[1]:
        return mk_lt(a[2], b[2])
    if a == ZERO and b[0] == 't' and b[1] in ('size',):
        return mk_nz(b)
    if b == ONE and a[0] == 't' and a[1] == 'size':
        return mk_not(mk_nz(a))
    return T('lt', a, b)


def mk_add(a, b):
    if a[0] == 'c' and b[0] == 'c':
        return ('c', a[1] + b[1])
    if a[0] == 'c':
        a, b = b, a
    if b == ZERO:
        return a
    if a[0] == 'it':
        return ('it', a[1], mk_add(a[2], b))
    if b[0] == 'c' and a[0] == 't' and a[1] == '+' and a[3][0] == 'c':
        return mk_add(a[2], ('c', a[3][1] + b[1]))
    if b[0] == 'c' and a[0] == 't' and a[1] == 'iv' and False:
        pass
    if a[0] == 's' and a == ('s', ''):
        return b
    return T('+', a, b)


def mk_cat(a, b):
    if a == ('s', ''):
        return b
    if b == ('s', ''):
        return a
    parts = []
    for x in (a, b):
        if x[0] == 't' and x[1] == 'cat':
            parts += list(x[2:])
        else:
            parts.append(x)
    out = []
    for p in parts:
        if out and out[-1][0] == 's' and p[0] == 's':
            out[-1] = ('s', out[-1][1] + p[1])
        else:
            out.append(p)
    if len(out) == 1:
        return out[0]
    return ('t', 'cat') + tuple(out)


def arith(op, a, b):
    if op == '-' and a[0] == 't' and a[1] == '+' and a[2] == b:
        return a[3]
    if op == '+':
        return mk_add(a, b)
    if op == '-':
        if b[0] == 'c':
            if a[0] == 'c':
                return ('c', a[1] - b[1])
            if a[0] != 's':
                return mk_add(a, ('c', -b[1]))
        if a == b:
            return ZERO
        if a[0] == 'it' and b[0] == 'it' and a[1] == b[1]:
            return arith('-', a[2], b[2])
        return T('-', a, b)
    if a[0] == 'c' and b[0] == 'c':
        x, y = a[1], b[1]
        try:
            if op == '*':
                return ('c', x * y)
            if op == '/':
                if isinstance(x, float) or isinstance(y, float):
                    return ('c', x / y)
                q = abs(x) // abs(y)
                return ('c', q if (x < 0) == (y < 0) else -q)
            if op == '%':
                return ('c', int(x - int(x / y) * y))
            if op == '&':
                return ('c', x & y)
            if op == '|':
                return ('c', x | y)
            if op == '^':
                return ('c', x ^ y)
            if op == '<<':
                return ('c', x << y)
            if op == '>>':
                return ('c', x >> y)
        except (ZeroDivisionError, TypeError, ValueError):
            return T(op, a, b)
    if op == '*' and ONE in (a, b):
        return b if a == ONE else a
    if op == '/' and b == ONE:
        return a
    if op in ('|', '&', '^') and op != '-' and repr(a) > repr(b):
        a, b = b, a
    if op in ('|', '^', '<<', '>>') and b == ZERO:
        return a
    if op in ('|', '^') and a == ZERO:
        return b
    if op == '&' and ZERO in (a, b):
        return ZERO
    return T(op, a, b)


class State:
    __slots__ = ('mem', 'facts', 'trace', 'ts', 'cls', 'cnt', 'dead')

    def __init__(self):
        self.mem = {}
        self.facts = {}
        self.trace = ()
        self.ts = None
        self.cls = {}
        self.cnt = 0

    def copy(self):
        s = State.__new__(State)
        s.mem = dict(self.mem)
        s.facts = dict(self.facts)
        s.trace = self.trace
        s.ts = self.ts
        s.cls = dict(self.cls)
        s.cnt = self.cnt
        return s

    def emit(self, *ev):
        self.trace = self.trace + (ev,)

    # -- facts -----------------------------------------------------------
    def decide(self, c):
        """c: boolean value -> True/False/None"""
        tr = truth_of(c)
        if tr is not None:
            return tr
        neg = False
        while c[0] == 't' and c[1] == 'not':
            c = c[2]
            neg = not neg
        r = self._dec(c)
        if r is None:
            return None
        return r != neg

    def _dec(self, c):
        tr = truth_of(c)
        if tr is not None:
            return tr
        f = self.facts.get(c)
        if f is not None:
            return f
        if c[0] != 't':
            c = mk_nz(c)
            if c[0] == 'c':
                return bool(c[1])
            f = self.facts.get(c)
            if f is not None:
                return f
        if c[0] == 't' and c[1] in ('and', 'or'):
            xs = [self.decide(x) for x in c[2:]]
            if c[1] == 'and':
                if False in xs:
                    return False
                if all(x is True for x in xs):
                    return True
            else:
                if True in xs:
                    return True
                if all(x is False for x in xs):
                    return False
            return None
        if c[0] == 't' and c[1] not in BOOLOPS:
            c = mk_nz(c)
            f = self.facts.get(c)
            if f is not None:
                return f
        if c[0] == 't' and c[1] == 'eq':
            a, b = c[2], c[3]
            if isc(b):
                lo, hi, ne, eq = self.bounds(a)
                if eq is not None:
                    return eq == b if eq[0] == b[0] else False
                if b in ne:
                    return False
                if b[0] == 'c':
                    if (lo is not None and b[1] < lo) or (hi is not None and b[1] > hi):
                        return False
                    if lo is not None and lo == hi:
                        return lo == b[1]
        elif c[0] == 't' and c[1] == 'nz':
            lo, hi, ne, eq = self.bounds(c[2])
            if eq is not None:
                return truth_of(eq)
            if ZERO in ne:
                return True
            if (lo is not None and lo > 0) or (hi is not None and hi < 0):
                return True
            if lo == 0 and hi == 0:
                return False
            if c[2][0] == 't' and c[2][1] == '+':
                lo, hi = self.range(c[2])
                if lo is not None and lo > 0:
                    return True
            if c[2][0] == 't' and c[2][1] == 'size' and c[2][2][:2] == ('t', 'cat'):
                # text put together is empty exactly if all its pieces are
                xs = [self.decide(mk_nz(mk_size(x))) for x in c[2][2][2:]]
                if True in xs:
                    return True
                if all(x is False for x in xs):
                    return False
        elif c[0] == 't' and c[1] == 'lt':
            a, b = c[2], c[3]
            la, ha = self.range(a)
            lb, hb = self.range(b)
            if ha is not None and lb is not None and ha < lb:
                return True
            if la is not None and hb is not None and la >= hb:
                return False
            # a < b  with known  b <= a etc. through a shared offset
            if self.facts.get(T('lt', b, a)) is True:
                return False
            e = mk_eq(a, b)
            if e[0] == 't' and self.facts.get(e) is True:
                return False
            # transitivity through a constant offset:  a+k<b  known  =>  a<b
            for k, v in self.facts.items():
                if v is True and k[1] == 'lt':
                    if k[3] == b and k[2][0] == 't' and k[2][1] == '+' and k[2][2] == a and k[2][3][0] == 'c' and k[2][3][1] >= 0:
                        return True
                elif v is False and k[1] == 'lt':
                    # not (x < y)  => y <= x ;  query a<b with b == x(+k), y == a+1
                    if k[2] == b and k[3] == mk_add(a, ONE):
                        return True
        return None

    def bounds(self, x):
        lo = hi = eq = None
        ne = set()
        if x[0] == 't':
            if x[1] in ('size', 'find'):
                lo = 0
        for k, v in self.facts.items():
            if k[0] != 't':
                continue
            op = k[1]
            if op == 'eq' and k[2] == x and isc(k[3]):
                if v:
                    eq = k[3]
                else:
                    ne.add(k[3])
            elif op == 'nz' and k[2] == x:
                if v:
                    ne.add(ZERO)
                else:
                    eq = ZERO
            elif op == 'lt':
                if k[2] == x and k[3][0] == 'c':
                    if v:
                        h = k[3][1] - 1 if isinstance(k[3][1], int) else k[3][1]
                        hi = h if hi is None else min(hi, h)
                    else:
                        lo = k[3][1] if lo is None else max(lo, k[3][1])
                elif k[3] == x and k[2][0] == 'c':
                    if v:
                        l = k[2][1] + 1 if isinstance(k[2][1], int) else k[2][1]
                        lo = l if lo is None else max(lo, l)
                    else:
                        hi = k[2][1] if hi is None else min(hi, k[2][1])
        if eq is not None and eq[0] == 'c':
            lo = hi = eq[1]
        if lo is not None and ('c', lo) in ne and isinstance(lo, int):
            lo += 1
        return lo, hi, ne, eq

    def range(self, x):
        if x[0] == 'c':
            return x[1], x[1]
        if x[0] == 't' and x[1] == '+' and x[3][0] == 'c':
            lo, hi = self.range(x[2])
            k = x[3][1]
            lo2, hi2, _, _ = self.bounds(x)
            l = None if lo is None else lo + k
            h = None if hi is None else hi + k
            if lo2 is not None:
                l = lo2 if l is None else max(l, lo2)
            if hi2 is not None:
                h = hi2 if h is None else min(h, hi2)
            return l, h
        if x[0] == 't' and x[1] == 'iv':
            lo, hi, _, _ = self.bounds(x)
            l0, h0 = self.range(x[3])
            st = x[4]
            if st > 0 and l0 is not None:
                lo = l0 if lo is None else max(lo, l0)
            if st < 0 and h0 is not None:
                hi = h0 if hi is None else min(hi, h0)
            return lo, hi
        lo, hi, _, _ = self.bounds(x)
        return lo, hi

    def assume(self, c, val):
        """returns self with the fact added, or None when infeasible (self is mutated)"""
        if not val:
            c = mk_not(c)
        d = self.decide(c)
        if d is True:
            return self
        if d is False:
            return None
        val = True
        while c[0] == 't' and c[1] == 'not':
            c = c[2]
            val = not val
        if c[0] != 't' or c[1] not in BOOLOPS:
            c = mk_nz(c)
        if c[0] == 't' and c[1] in ('and', 'or'):
            if (c[1] == 'and') == val:
                for x in c[2:]:
                    if self.assume(x, val) is None:
                        return None
                return self
        self.facts[c] = val
        return self


def exact_union(a, b):
    """do two conjunctions of facts differ in nothing, or in the sign of one fact?"""
    if len(a) > len(b):
        a, b = b, a
    if len(a) != len(b):
        return all(b.get(k) is v for k, v in a.items())      # b implies a
    diff = 0
    for k, v in a.items():
        w = b.get(k)
        if w is None:
            return False
        if w is not v:
            diff += 1
            if diff > 1:
                return False
    return True


def strip_type(n):
    if n.startswith('const '):
        n = n[6:]
    return n


SMART = ('boost::intrusive_ptr<', 'boost::scoped_ptr<', 'std::unique_ptr<', 'std::shared_ptr<',
         'boost::shared_ptr<', 'std::auto_ptr<', 'boost::scoped_array<', 'boost::shared_array<')
VECS = ('std::vector<', 'std::deque<', 'std::stack<', 'std::queue<', 'std::list<')
STRS = ('std::basic_string<char', 'std::__cxx11::basic_string<char')


def kind_of_class(n):
    n = strip_type(n)
    if n.startswith(SMART):
        return 'smart'
    if n.startswith(STRS):
        return 'string'
    if n.startswith('std::__cxx11::list<') or n.startswith(VECS):
        return 'vec'
    if n.startswith(('std::map<', 'std::multimap<', 'std::unordered_map<')):
        return 'map'
    if n.startswith(('std::set<', 'std::unordered_set<')):
        return 'set'
    if n.startswith('std::pair<'):
        return 'pair'
    if n.startswith(('std::', '__gnu_cxx::', 'boost::')):
        return 'lib'
    return None


class Frame:
    __slots__ = ('id', 'fn', 'this', 'depth', 'parent', 'line', 'caps', 'labels')

    def __init__(self, fid, fn, this, parent):
        self.id = fid
        self.fn = fn
        self.this = this
        self.parent = parent
        self.depth = parent.depth + 1 if parent else 0
        self.line = 0
        self.caps = None

    def stack(self):
        f, out = self, []
        while f:
            out.append('%s (%s:%s)' % (f.fn['qn'], f.fn['file'], f.line))
            f = f.parent
        return out


class Client:
    """Override to observe / intercept."""

    def endless(self, ip, st, fr, loop):
        """a loop whose condition stayed decided for as many rounds as are unrolled"""
        return False

    def call(self, ip, st, fr, f, this, args, node):
        """return None to fall through, or a list of (state, value)"""
        return None

    def opaque(self, ip, st, fr, f, this, args, node):
        return None

    def store(self, ip, st, fr, loc, val, node):
        pass

    def load(self, ip, st, fr, loc, node):
        return None

    def deref(self, ip, st, fr, addr, node, what):
        pass

    def branch(self, ip, st, fr, cond, node):
        pass

    def candidates(self, ip, st, fr, f, this, args, node, cands):
        """virtual call on an object of unknown dynamic type: return a list of
        function ids to explore or None (opaque)"""
        return None

    def drop(self, ip, st, fr, loc, typ):
        pass


class Interp:
    def __init__(self, db, client=None, max_depth=30, unroll=300, max_states=64, budget=400000):
        self.db = db
        self.client = client or Client()
        self.max_depth = max_depth
        self.unroll = unroll
        self.max_states = max_states
        self.steps = 0
        self.budget = budget
        self.nframe = 0
        self.depth = 0
        self.forced_joins = 0
        self.unmodelled = {}
        self.loops = {}
        self.inlined = set()
        self.opaque_called = {}
        self.recursion_limit = 2
        self._dtor = {}
        self._glob = {}
        self.nobj = 0
        self.nloop = 0
        import models
        self.models = models

    # ---- types ------------------------------------------------------------
    def ty(self, i):
        return self.db.types[i]

    def tname(self, i):
        return self.db.types[i].get('n', self.db.types[i]['s'])

    def pointee(self, node):
        """static class name of the object designated by an object expression"""
        t = self.ty(node['t'])
        if t.get('k') == 'ptr':
            return strip_type(t['p'])
        return strip_type(t.get('n', ''))

    def record(self, n):
        return self.db.records.get(strip_type(n))

    def is_sub(self, d, b):
        if d == b:
            return True
        r = self.db.records.get(d)
        return bool(r) and any(self.is_sub(x['n'], b) for x in r['bases'])

    def all_subs(self, c, out=None):
        if out is None:
            out = []
        if c not in out:
            out.append(c)
        for s in self.db.subs.get(c, []):
            self.all_subs(s, out)
        return out

    def all_fields(self, cls):
        r = self.db.records.get(cls)
        if not r:
            return
        for b in r['bases']:
            for x in self.all_fields(b['n']):
                yield x
        for f in r['fields']:
            yield cls + '::' + f['n'], f

    def find_override(self, cls, target):
        """final overrider of virtual function `target` in dynamic class cls"""
        c = cls
        seen = []
        queue = [c]
        while queue:
            c = queue.pop(0)
            r = self.db.records.get(c)
            if not r:
                continue
            for m in r['methods']:
                if m == target or target in self.db.ovr.get(m, ()):
                    return m
            queue += [b['n'] for b in r['bases']]
        return target

    def nontrivial_dtor(self, cls):
        """repo class whose destruction runs user code: returns list of actions"""
        cls = strip_type(cls)
        if cls in self._dtor:
            return self._dtor[cls]
        self._dtor[cls] = None
        r = self.db.records.get(cls)
        if not r:
            return None
        own = None
        for m in r['methods']:
            f = self.db.functions.get(m)
            if f and f['kind'] == 'dtor' and 'body' in f and not f.get('implicit'):
                own = m
        subs = []
        for f in r['fields']:
            t = self.ty(f['t'])
            if t.get('ref'):
                continue
            n = t.get('n', '')
            if t.get('k') == 'rec':
                if self.nontrivial_dtor(n) or kind_of_class(n) == 'smart':
                    subs.append((cls + '::' + f['n'], n))
        bases = [b['n'] for b in r['bases'] if self.nontrivial_dtor(b['n'])]
        res = (own, tuple(subs), tuple(bases)) if (own or subs or bases) else None
        self._dtor[cls] = res
        return res

    # ---- memory -------------------------------------------------------------
    def default(self, st, loc):
        k = loc[0]
        if k == 'v':
            return UNDEF
        if k == 'g':
            return self.global_value(st, loc)
        if k == 'm':
            a = loc[1]
            if a[0] == 'p' and a[1][0] in ('e', 'v', 'm', 'x', 'g'):
                # a record held by value in a container, or a pair
                if a[1][0] == 'm' and a[1][2] in ('pair::first', 'pair::second') or (a[1][0] == 'e' and (len(a[1]) == 4 or a[1][1][0] == 'p' and a[1][1][1][0] == 'g')) or a[1] in st.mem:
                    r = self.load(st, a[1])
                    if r[0] == 'pair' and loc[2] in ('pair::first', 'pair::second'):
                        return r[1] if loc[2] == 'pair::first' else r[2]
                    if r[0] == 'rec':
                        for kk, vv in r[2]:
                            if kk == loc[2]:
                                return vv
                    if r != UNDEF:
                        return T('fld', r, loc[2])
            if a[0] == 'o' or (a[0] == 'p' and self.rooted_local(a[1])):
                # allocated object with no stored value: reading it is undefined
                return UNDEF if not st.mem.get(('lazy', a)) else T('init', loc)
            return T('init', loc)
        if k == 'e':
            a = loc[1]
            if a[0] == 'p':
                base = st.mem.get(a[1])
                if base is not None and base[0] == 'arr' and loc[2][0] == 'c' and 0 <= loc[2][1] < len(base[1]):
                    return base[1][loc[2][1]]
                if base is None and a[1][0] == 'g':
                    base = self.global_value(st, a[1])
                    if base[0] == 'arr' and loc[2][0] == 'c' and 0 <= loc[2][1] < len(base[1]):
                        return base[1][loc[2][1]]
                if base is None and a[1][0] == 'e' and len(a[1]) == 3 and loc[2][0] == 'c':
                    base = self.default(st, a[1])
                    if base[0] == 'arr':
                        return base[1][loc[2][1]] if 0 <= loc[2][1] < len(base[1]) else T('init', loc)
                    base = None
                if base is not None and base[0] == 's' and loc[2][0] == 'c':
                    return self.char_at(base, loc[2])
                if base is None and self.rooted_local(a[1]):
                    return T('init', loc)
            if a[0] == 's' and loc[2][0] == 'c':
                return self.char_at(a, loc[2])
            return T('init', loc)
        if k == 'x' and loc[1][0] == 't' and loc[1][1] == 'mapfind':
            it = loc[1]
            return ('pair', it[4], self.models.mk_mapget(it[3], it[4]))
        return T('init', loc)

    def char_at(self, s, i):
        b = s[1].encode('utf-8', 'replace')
        if 0 <= i[1] < len(b):
            return ('c', b[i[1]])
        if i[1] == len(b):
            return ZERO
        return T('init', ('e', s, i))

    def rooted_local(self, loc):
        while loc[0] in ('m', 'e'):
            a = loc[1]
            if a[0] == 'p':
                loc = a[1]
            elif a[0] == 'o':
                return True
            else:
                return False
        return loc[0] == 'v'

    def load(self, st, loc, fr=None, node=None):
        if loc[0] == 'e' and len(loc) == 4:
            return self.models.cont_load(self, st, loc)
        v = st.mem.get(loc)
        if v is None:
            r = self.client.load(self, st, fr, loc, node)
            if r is not None:
                st.mem[loc] = r
                return r
            v = self.default(st, loc)
        return v

    def store(self, st, loc, val, fr=None, node=None):
        if loc[0] == 'e' and len(loc) == 4:
            self.models.cont_store(self, st, loc, val, fr, node)
            return
        self.client.store(self, st, fr, loc, val, node)
        st.mem[loc] = val

    def addr(self, loc):
        """pointer value to a location"""
        if loc[0] == 'x':
            return loc[1]
        if loc[0] == 'e' and loc[2] == ZERO and False:
            return loc[1]
        return ('p', loc)

    def deref_loc(self, a):
        if a[0] == 'p':
            return a[1]
        return ('x', a)

    def first_of(self, st, l):
        """the first element where l is an array of known elements"""
        if l[0] in 'gv' and len(l) < 4:
            b = st.mem.get(l)
            if b is None and l[0] == 'g':
                b = self.global_value(st, l)
            if b is not None and b[0] == 'arr':
                return ('e', ('p', l), ZERO)
        return l

    def global_value(self, st, loc):
        gid = loc[1]
        if gid in self._glob:
            return self._glob[gid]
        self._glob[gid] = T('init', loc)
        g = self.db.globals.get(gid)
        v = T('init', loc)
        if str(gid).endswith('::npos'):
            v = ('c', 18446744073709551615)
        elif g and 'i' in g and g['i'] is not None:
            t = self.ty(g['t'])
            const = t['s'].startswith('const') or ' const' in t['s'] or t.get('c') or \
                (gid not in self.db.written and t.get('k') != 'rec')
            if const:
                try:
                    fr = Frame(-1, {'qn': '<global init>', 'file': g['file'], 'ret': 0}, None, None)
                    rs = self.ev(State(), g['i'], fr)
                    if len(rs) == 1:
                        v = self.freeze(rs[0][0], rs[0][1])
                except Budget:
                    raise
        self._glob[gid] = v
        return v

    def freeze(self, st, v):
        """a value that does not depend on the temporaries of state st"""
        if v[0] == 'arr':
            return ('arr', tuple(self.freeze(st, x) for x in v[1]))
        if v[0] == 'p' and v[1][0] == 'v' and v[1][1] == 'tmp':
            fs = tuple(sorted((k[2], self.freeze(st, x)) for k, x in st.mem.items() if k[0] == 'm' and k[1] == v))
            if fs:
                return ('rec', fs[0][0].rsplit('::', 1)[0], fs)
        return v

    def new_obj(self, st, cls):
        st.cnt += 1
        o = ('o', st.cnt)
        st.cls[o] = cls
        return o

    def fresh(self, st, tag, *info):
        st.cnt += 1
        return T('fresh', tag, st.cnt) + tuple(info)

    # object/array copying for record values
    def copy_record(self, st, src, dst, cls, fr=None):
        """copy fields of record at address src to address dst"""
        for key, f in self.all_fields(cls):
            t = self.ty(f['t'])
            sl, dl = ('m', src, key), ('m', dst, key)
            n = t.get('n', '')
            if t.get('k') == 'rec' and kind_of_class(n) is None and self.record(n) and not t.get('ref'):
                self.copy_record(st, ('p', sl), ('p', dl), strip_type(n), fr)
            elif t.get('k') == 'arr':
                for k, v in list(st.mem.items()):
                    if k[0] == 'e' and k[1] == ('p', sl):
                        st.mem[('e', ('p', dl), k[2])] = v
                st.mem[dl] = self.load(st, sl)
            else:
                self.store(st, dl, self.load(st, sl), fr)

    # ---- joins ----------------------------------------------------------------
    keep_facts = False      # join only states whose union is exact
    loop_states = 8         # states followed through a loop whose condition is decided

    def join_states(self, states, cap=None, root=None):
        """states: list of State at the same program point"""
        if len(states) <= 1:
            return states
        cap = cap or self.max_states
        groups = OrderedDict()
        for s in states:
            self.gc(s, root)
            groups.setdefault((s.trace, s.ts), []).append(s)
        out = []
        for key, g in groups.items():
            merged = []
            for s in g:
                for m in merged:
                    if m.mem == s.mem:
                        if self.keep_facts and not exact_union(m.facts, s.facts):
                            continue
                        if len(m.facts) > len(s.facts):
                            a, b = s.facts, m.facts
                        else:
                            a, b = m.facts, s.facts
                        m.facts = {k: v for k, v in a.items() if b.get(k) is v}
                        m.cnt = max(m.cnt, s.cnt)
                        m.cls.update(s.cls)
                        break
                else:
                    merged.append(s)
            if len(merged) > cap:
                merged = [self.force_join(merged)]
            out += merged
        return out

    def force_join(self, ms):
        self.forced_joins += 1
        base = ms[0].copy()
        for s in ms[1:]:
            for k in set(base.mem) | set(s.mem):
                a = base.mem.get(k)
                b = s.mem.get(k)
                if a is None:
                    a = self.default(base, k)
                if b is None:
                    b = self.default(s, k)
                if a != b:
                    if a == UNDEF or b == UNDEF:
                        base.mem[k] = UNDEF if a == b else T('maybe_undef', k)
                    else:
                        base.mem[k] = T('phi', self.forced_joins, k)
            base.facts = {k: v for k, v in base.facts.items() if s.facts.get(k) is v}
            base.cnt = max(base.cnt, s.cnt)
            base.cls.update(s.cls)
        return base

    def join_outs(self, outs):
        """outs: list of (ctl, state, val) -> joined per ctl/val"""
        if len(outs) <= 1:
            return outs
        groups = OrderedDict()
        for c, s, v in outs:
            groups.setdefault((c, v), []).append(s)
        res = []
        for (c, v), ss in groups.items():
            for s in self.join_states(ss, None, v if isinstance(v, tuple) else None):
                res.append((c, s, v))
        if len(res) > 4 * self.max_states:
            # too many distinct return values: force
            byc = OrderedDict()
            for c, s, v in res:
                byc.setdefault((c, s.trace, s.ts), []).append((s, v))
            res = []
            for (c, tr, ts), l in byc.items():
                if len(l) > self.max_states:
                    m = self.force_join([s for s, _ in l])
                    vs = set(v for _, v in l)
                    res.append((c, m, list(vs)[0] if len(vs) == 1 else T('phi', self.forced_joins, 'ret')))
                else:
                    res += [(c, s, v) for s, v in l]
        return res

    # ---- statements ---------------------------------------------------------
    def tick(self):
        self.steps += 1
        if self.steps > self.budget:
            raise Budget('analysis budget exhausted')

    def ex(self, st, s, fr):
        """execute statement -> list of (ctl, state, val)"""
        if s is None:
            return [('n', st, None)]
        self.tick()
        k = s['k']
        fr.line = s.get('l', fr.line)
        return getattr(self, 'x_' + k)(st, s, fr)

    def x_null(self, st, s, fr):
        return [('n', st, None)]

    def x_blk(self, st, s, fr):
        states = [st]
        done = []
        decls = []
        body = s['b']
        i = 0
        for i, c in enumerate(body):
            if c is None:
                continue
            if c['k'] == 'decl':
                decls += c['d']
            nxt = []
            for x in states:
                for o in self.ex(x, c, fr):
                    if o[0] == 'n':
                        nxt.append(o[1])
                    else:
                        done.append(o)
            states = self.join_states(nxt)
                # forward gotos into this block
            if done and i + 1 < len(body) and body[i + 1] and body[i + 1]['k'] == 'label':
                n = body[i + 1]['n']
                hit = [o for o in done if o[0] == 'goto' and o[2] == n]
                if hit:
                    done = [o for o in done if not (o[0] == 'goto' and o[2] == n)]
                    states = self.join_states(states + [o[1] for o in hit])
            if not states:
                if not any(o[0] == 'goto' for o in done):
                    break
        outs = done + [('n', x, None) for x in states]
        dd = [d for d in decls if not d.get('static') and self.needs_drop(d)]
        if dd:
            res = []
            for c, x, v in outs:
                xs = [x]
                for d in reversed(dd):
                    loc = ('v', fr.id, d['id'])
                    nx = []
                    for y in xs:
                        if ('live', loc) in y.mem:
                            nx += self.drop(y, loc, self.tname(d['t']), fr)
                        else:
                            nx.append(y)
                    xs = nx
                res += [(c, y, v) for y in xs]
            outs = res
        return self.join_outs(outs)

    def needs_drop(self, d):
        t = self.ty(d['t'])
        if t.get('ref') or t.get('k') != 'rec':
            return False
        n = strip_type(t.get('n', ''))
        return bool(self.nontrivial_dtor(n)) or kind_of_class(n) == 'smart'

    def drop(self, st, loc, typ, fr):
        st.mem.pop(('live', loc), None)
        typ = strip_type(typ)
        kc = kind_of_class(typ)
        if kc == 'smart':
            self.client.drop(self, st, fr, loc, typ)
            if 'scoped_' in typ or 'unique_ptr' in typ:
                v = self.load(st, loc)
                if v != ZERO and v != UNDEF:
                    self.client.opaque(self, st, fr, {'qn': 'operator delete', 'n': 'delete', 'params': [], 'file': '', 'line': 0}, None, [v], None)
                    return self.delete(st, v, fr, None, typ[typ.index('<') + 1:-1])
            return [st]
        return self.run_dtor(st, ('p', loc), typ, fr)

    def run_dtor(self, st, a, cls, fr):
        d = self.nontrivial_dtor(cls)
        if not d:
            return [st]
        own, subs, bases = d
        states = [st]
        if own:
            f = self.db.functions[own]
            r = self.client.call(self, st, fr, f, a, [], None)
            if r is not None:
                states = [x for x, _ in r]
            elif fr.depth < self.max_depth:
                states = [x for x, _ in self.invoke(st, f, a, [], fr, None)]
        for fld, n in reversed(subs):
            nx = []
            for x in states:
                nx += self.drop(x, ('m', a, fld), n, fr)
            states = nx
        for b in bases:
            nx = []
            for x in states:
                nx += self.run_dtor(x, a, b, fr)
            states = nx
        return states

    def delete(self, st, v, fr, node, cls):
        """delete expression on pointer v"""
        cls = strip_type(cls)
        return self.run_dtor_dyn(st, v, cls, fr)

    def x_decl(self, st, s, fr):
        states = [st]
        for d in s['d']:
            nx = []
            for x in states:
                nx += self.decl_var(x, d, fr)
            states = nx
        return [('n', x, None) for x in states]

    def decl_var(self, st, d, fr):
        if d.get('static'):
            return [st]
        loc = ('v', fr.id, d['id'])
        t = self.ty(d['t'])
        # a redeclaration in a loop starts fresh
        for k in [k for k in st.mem if self.sub_of(k, loc)]:
            del st.mem[k]
        out = []
        if t.get('ref'):
            if 'i' in d:
                for x, l in self.lv(st, d['i'], fr):
                    x.mem[loc] = ('p', l) if l[0] != 'x' else l[1]
                    x.mem[('ref', loc)] = ONE
                    out.append(x)
                return out
            return [st]
        if 'i' in d and d['i'] is not None:
            states = self.init_loc(st, loc, d['t'], d['i'], fr)
        else:
            states = [st]
        if self.needs_drop(d):
            for x in states:
                x.mem[('live', loc)] = ONE
        return states

    def sub_of(self, k, loc):
        """memory key k is loc or a sub-location of it"""
        if k == loc:
            return True
        while k[0] in ('m', 'e'):
            a = k[1]
            if a[0] != 'p':
                return False
            k = a[1]
            if k == loc:
                return True
        if k[0] == 'x':
            return False
        return False

    def init_loc(self, st, loc, tid, e, fr):
        """initialise an object of type tid at loc from expression e -> states"""
        t = self.ty(tid)
        n = strip_type(t.get('n', ''))
        if t.get('k') == 'rec' and kind_of_class(n) is None:
            return self.init_record(st, loc, n, e, fr)
        if t.get('k') == 'arr':
            return self.init_array(st, loc, e, fr)
        out = []
        for x, v in self.ev(st, e, fr):
            self.store(x, loc, self.conv(v, t), fr, e)
            out.append(x)
        return out

    def init_array(self, st, loc, e, fr):
        if e is None:
            return [st]
        if e['k'] == 'str':
            st.mem[loc] = ('s', e['v'])
            return [st]
        if e['k'] == 'ilist':
            states = [(st, ())]
            for x in e['a']:
                nx = []
                for y, acc in states:
                    for z, v in self.ev(y, x, fr):
                        nx.append((z, acc + (v,)))
                states = nx
            n = (self.ty(e['t']).get('len') or 0) if 't' in e else 0
            num = n <= 8192 and all(v[0] == 'c' for _, acc in states for v in acc)
            for y, acc in states:
                y.mem[loc] = ('arr', acc + (ZERO,) * (n - len(acc)) if num else acc)
            return [y for y, _ in states]
        if e['k'] == 'zero':
            st.mem[loc] = ('zeroarr',)
            return [st]
        return [x for x, _ in self.ev(st, e, fr)]

    def init_record(self, st, loc, cls, e, fr):
        """repo record at location loc"""
        a = ('p', loc)
        if e is None:
            return [st]
        if e['k'] == 'ctor':
            if loc[0] in ('v', 'm') or True:
                st.cls[a] = cls
            return self.run_ctor(st, a, e, fr)
        if e['k'] == 'ilist':
            states = [st]
            r = self.db.records.get(cls)
            fl = r['fields'] if r else []
            for f, x in zip(fl, e['a']):
                nx = []
                for y in states:
                    nx += self.init_loc(y, ('m', a, cls + '::' + f['n']), f['t'], x, fr)
                states = nx
            return states
        out = []
        for x, v in self.ev(st, e, fr):
            self.assign_record(x, loc, v, cls, fr)
            out.append(x)
        return out

    def assign_record(self, st, loc, v, cls, fr):
        """v: record value = address of a temporary/other object, or a term"""
        if v[0] in ('p', 'o'):
            if loc[0] == 'e' and len(loc) == 4:
                self.store(st, loc, self.models.snapshot(self, st, v, cls), fr)
                return
            self.copy_record(st, v, ('p', loc), cls, fr)
        elif v[0] == 'rec':
            for key, x in v[2]:
                st.mem[('m', ('p', loc), key)] = x
        else:
            for k in [k for k in st.mem if self.sub_of(k, loc)]:
                del st.mem[k]
            for key, f in self.all_fields(cls):
                st.mem[('m', ('p', loc), key)] = T('fld', v, key)
            if not self.db.records.get(cls):
                st.mem[loc] = v

    def run_ctor(self, st, a, e, fr):
        """construct at address a; e is a ctor node.  -> states"""
        f = self.db.functions[e['f']]
        cls = e['c']
        outs = []
        for x, args in self.ev_args(st, f, e['a'], fr):
            outs += self.construct(x, a, cls, f, args, fr, e)
        return outs

    def construct(self, st, a, cls, f, args, fr, node):
        r = self.client.call(self, st, fr, f, a, args, node)
        if r is not None:
            return [x for x, _ in r]
        if 'body' in f:
            if fr.depth >= self.max_depth:
                return [st]
            return [x for x, _ in self.invoke(st, f, a, args, fr, node)]
        if f.get('copy') and args:
            self.copy_record(st, args[0], a, cls, fr)
            return [st]
        # implicit default constructor: bases and members
        rec = self.db.records.get(cls)
        states = [st]
        if rec:
            for b in rec['bases']:
                nx = []
                for x in states:
                    nx += self.default_construct(x, a, b['n'], fr)
                states = nx
            for fl in rec['fields']:
                t = self.ty(fl['t'])
                loc = ('m', a, cls + '::' + fl['n'])
                nx = []
                for x in states:
                    if 'i' in fl:
                        nx += self.init_loc(x, loc, fl['t'], fl['i'], fr)
                    elif t.get('k') == 'rec':
                        nx += self.default_construct_loc(x, loc, t, fr)
                    else:
                        nx.append(x)
                states = nx
        return states

    def default_construct(self, st, a, cls, fr):
        rec = self.db.records.get(cls)
        if not rec:
            return [st]
        for m in rec['methods']:
            f = self.db.functions[m]
            if f['kind'] == 'ctor' and not f['params'] and 'body' in f:
                return [x for x, _ in self.invoke(st, f, a, [], fr, None)]
        return self.construct(st, a, cls, {'qn': cls + '::<implicit>', 'kind': 'ctor', 'params': [], 'file': '', 'line': 0, 'n': ''}, [], fr, None)

    def default_construct_loc(self, st, loc, t, fr):
        n = strip_type(t.get('n', ''))
        kc = kind_of_class(n)
        if kc is None:
            if self.db.records.get(n):
                return self.default_construct(st, ('p', loc), n, fr)
            st.mem[loc] = T('lib', n)
            return [st]
        st.mem[loc] = self.models.default_value(n)
        return [st]

    def x_expr(self, st, s, fr):
        return [('n', x, None) for x in self.ev_discard(st, s['e'], fr)]

    def ev_discard(self, st, e, fr):
        return [x for x, _ in self.ev(st, e, fr)]

    def x_ret(self, st, s, fr):
        if 'e' not in s or s['e'] is None:
            return [('ret', st, VOID)]
        rt = self.ty(fr.fn['ret'])
        out = []
        if rt.get('ref'):
            for x, l in self.lv(st, s['e'], fr):
                out.append(('ret', x, self.addr(l)))
            return out
        n = strip_type(rt.get('n', ''))
        if rt.get('k') == 'rec' and kind_of_class(n) is None and self.db.records.get(n):
            # materialise the record in a temporary
            st.cnt += 1
            loc = ('v', 'tmp', (self.depth, st.cnt))
            for x in self.init_record(st, loc, n, s['e'], fr):
                out.append(('ret', x, ('p', loc)))
            return out
        for x, v in self.ev(st, s['e'], fr):
            out.append(('ret', x, self.conv(v, rt)))
        return out

    def x_break(self, st, s, fr):
        return [('brk', st, None)]

    def x_continue(self, st, s, fr):
        return [('cont', st, None)]

    def x_goto(self, st, s, fr):
        return [('goto', st, s['n'])]

    def x_label(self, st, s, fr):
        return self.ex(st, s['s'], fr)

    def x_unks(self, st, s, fr):
        return [('n', st, None)]

    def x_case(self, st, s, fr):
        return self.ex(st, s['s'], fr)

    def x_default(self, st, s, fr):
        return self.ex(st, s['s'], fr)

    def x_try(self, st, s, fr):
        return self.ex(st, s['b'], fr)

    def x_if(self, st, s, fr):
        states = [st]
        if 'init' in s:
            states = [o[1] for o in self.ex(st, s['init'], fr)]
        if 'cv' in s:
            nx = []
            for x in states:
                nx += self.decl_var(x, s['cv'], fr)
            states = nx
        outs = []
        T_, F_ = [], []
        for x in states:
            for y, b in self.cond(x, s['c'], fr):
                (T_ if b else F_).append(y)
        for y in self.join_states(T_):
            outs += self.ex(y, s['x'], fr)
        for y in self.join_states(F_):
            outs += self.ex(y, s['y'], fr)
        return self.join_outs(outs)

    def cond(self, st, e, fr):
        """evaluate a condition -> list of (state, bool)"""
        k = e['k']
        if k == 'bin' and e['op'] in ('&&', '||'):
            out = []
            for x, b in self.cond(st, e['x'], fr):
                if (e['op'] == '&&') == b:
                    out += self.cond(x, e['y'], fr)
                else:
                    out.append((x, b))
            return out
        if k == 'un' and e['op'] == '!':
            return [(x, not b) for x, b in self.cond(st, e['e'], fr)]
        if k == 'cast' and e['ck'] in ('IntegralToBoolean', 'PointerToBoolean', 'FloatingToBoolean') and e['e']['k'] in ('bin', 'un', 'call'):
            return self.cond(st, e['e'], fr)
        out = []
        for x, v in self.ev(st, e, fr):
            out += self.split(x, v, fr, e)
        return out

    def split(self, st, v, fr, node):
        if v[0] in ('s', 'f', 'cl'):
            return [(st, True)]
        c = mk_nz(v) if not is_bool(v) else v
        d = st.decide(c)
        if d is not None:
            return [(st, d)]
        self.client.branch(self, st, fr, c, node)
        a, b = st.copy(), st
        out = []
        if a.assume(c, True) is not None:
            out.append((a, True))
        if b.assume(c, False) is not None:
            out.append((b, False))
        return out

    def x_switch(self, st, s, fr):
        states = [st]
        if 'init' in s:
            states = [o[1] for o in self.ex(st, s['init'], fr)]
        if 'cv' in s:
            nx = []
            for x in states:
                nx += self.decl_var(x, s['cv'], fr)
            states = nx
        # flatten body: list of (labels, stmt)
        body = s['b']['b'] if s['b'] and s['b']['k'] == 'blk' else [s['b']]
        flat = []
        for c in body:
            labels = []
            while c is not None and c['k'] in ('case', 'default'):
                labels.append(c['v'] if c['k'] == 'case' else None)
                if 'v2' in c:
                    labels[-1] = (c['v'], c['v2'])
                c = c['s']
            flat.append((labels, c))
        outs = []
        for x in states:
            for y, v in self.ev(x, s['c'], fr):
                outs += self.switch_on(y, v, flat, fr, s)
        res = []
        for c, x, v in outs:
            if c == 'brk':
                res.append(('n', x, None))
            else:
                res.append((c, x, v))
        return self.join_outs(res)

    def switch_on(self, st, v, flat, fr, s):
        outs = []
        default_at = None
        cur = st
        for i, (labels, _) in enumerate(flat):
            for l in labels:
                if l is None:
                    default_at = i
                    continue
                if isinstance(l, tuple):
                    lo, hi = l[0]['v'], l[1]['v']
                    cs = [mk_eq(v, ('c', q)) for q in range(lo, hi + 1)]
                    c = cs[0] if len(cs) == 1 else ('t', 'or') + tuple(cs)
                    dv = [cur.decide(q) for q in cs]
                    d = True if True in dv else (False if all(q is False for q in dv) else None)
                else:
                    if l['k'] != 'int':
                        continue
                    c = mk_eq(v, ('c', l['v']))
                    d = cur.decide(c)
                if d is True:
                    return outs + self.run_from(cur, flat, i, fr)
                if d is False:
                    continue
                self.client.branch(self, cur, fr, c, s)
                a = cur.copy()
                if a.assume(c, True) is not None:
                    outs += self.run_from(a, flat, i, fr)
                if cur.assume(c, False) is None:
                    return outs
        if default_at is not None:
            outs += self.run_from(cur, flat, default_at, fr)
        else:
            outs.append(('n', cur, None))
        return outs

    def run_from(self, st, flat, i, fr):
        states = [st]
        outs = []
        for labels, c in flat[i:]:
            nx = []
            for x in states:
                for o in self.ex(x, c, fr):
                    if o[0] == 'n':
                        nx.append(o[1])
                    else:
                        outs.append(o)
            states = self.join_states(nx)
            if not states:
                break
        return outs + [('n', x, None) for x in states]

    # ---- loops -----------------------------------------------------------------
    def x_while(self, st, s, fr):
        return self.loop(st, s, fr, None, s['c'], None, s['b'], s.get('cv'))

    def x_for(self, st, s, fr):
        states = [st]
        decls = []
        if s.get('init'):
            states = [o[1] for o in self.ex(st, s['init'], fr)]
        outs = []
        for x in states:
            outs += self.loop(x, s, fr, None, s['c'], s.get('inc'), s['b'], s.get('cv'))
        return self.join_outs(outs)

    def x_do(self, st, s, fr):
        outs = []
        nxt = []
        for c, x, v in self.ex(st, s['b'], fr):
            if c in ('n', 'cont'):
                nxt.append(x)
            elif c == 'brk':
                outs.append(('n', x, None))
            else:
                outs.append((c, x, v))
        for x in self.join_states(nxt):
            outs += self.loop(x, s, fr, None, s['c'], None, s['b'], None)
        return self.join_outs(outs)

    def x_rfor(self, st, s, fr):
        """range for: desugar into indexing of the container value"""
        outs = []
        for x, l in self.lv(st, s['r'], fr):
            outs += self.rfor_on(x, l, s, fr)
        return self.join_outs(outs)

    def rfor_on(self, st, l, s, fr):
        iloc = ('v', fr.id, ('rf', s['l']))
        st.mem[iloc] = ZERO
        cont = l
        vd = s['v']

        def condf(x):
            c = self.load(x, cont)
            n = mk_size(c) if c[0] != 'arr' else ('c', len(c[1]))
            xs = self.models.map_items(c)
            if xs is not None:
                n = ('c', len(xs))
            v = mk_lt(x.mem[iloc], n)
            return self.split(x, v, fr, s)

        def pre(x):
            c = self.load(x, cont)
            i = x.mem[iloc]
            t = self.ty(vd['t'])
            loc = ('v', fr.id, vd['id'])
            xs = self.models.map_items(c)
            if xs is not None and i[0] == 'c':
                it = T('mapfind', self.addr(cont), c, xs[i[1]][0])
                if t.get('ref') and xs[i[1]][1] != self.models.SETV:
                    x.mem[loc] = it
                    x.mem[('ref', loc)] = ONE
                    return [x]
                el = self.models.deref(self, x, it)
            else:
                el = self.models.elem_loc(self, x, cont, c, i)
            for k in [k for k in x.mem if self.sub_of(k, loc)]:
                del x.mem[k]
            if t.get('ref'):
                x.mem[loc] = self.addr(el)
                x.mem[('ref', loc)] = ONE
            else:
                x.mem[loc] = self.load(x, el)
            return [x]

        def inc(x):
            x.mem[iloc] = mk_add(x.mem[iloc], ONE)
            return [x]
        return self.loop(st, s, fr, None, condf, inc, s['b'], None, pre)

    def loop(self, st, s, fr, _init, c, inc, body, cv=None, pre=None):
        def docond(x):
            xs = [x]
            if cv is not None:
                xs = self.decl_var(x, cv, fr)
            if c is None:
                return [(y, True) for y in xs]
            out = []
            for y in xs:
                if callable(c):
                    out += c(y)
                else:
                    out += self.cond(y, c, fr)
            return out

        def doinc(x):
            if inc is None:
                return [x]
            if callable(inc):
                return inc(x)
            return self.ev_discard(x, inc, fr)

        def dobody(x):
            """-> (next_states, outs)"""
            nxt, outs = [], []
            xs = pre(x) if pre else [x]
            for y in xs:
                for o in self.ex(y, body, fr):
                    if o[0] in ('n', 'cont'):
                        nxt.append(o[1])
                    elif o[0] == 'brk':
                        outs.append(('n', o[1], None))
                    else:
                        outs.append(o)
            res = []
            for y in self.join_states(nxt):
                res += doinc(y)
            return self.join_states(res), outs

        outs = []
        cur = [st]
        rounds = 0
        # phase 1: iterate while the condition is decided
        while cur and rounds < self.unroll:
            nxt = []
            undecided = []
            for x in cur:
                probe = x.copy()
                r = docond(probe)
                if c is None:
                    undecided.append(x)
                    continue
                if len(r) == 1:
                    y, b = r[0]
                    if not b:
                        outs.append(('n', y, None))
                    else:
                        n, o = dobody(y)
                        nxt += n
                        outs += o
                else:
                    undecided.append(x)
            for x in undecided:
                outs += self.loop_fix(x, s, fr, docond, dobody)
            cur = self.join_states(nxt)
            rounds += 1
            if len(cur) > self.loop_states:
                for x in cur:
                    outs += self.loop_fix(x, s, fr, docond, dobody)
                cur = []
        for x in cur:
            if self.client.endless(self, x, fr, s):
                outs.append(('n', x, None))
                continue
            outs += self.loop_fix(x, s, fr, docond, dobody)
        return self.join_outs(outs)

    def loop_fix(self, st, s, fr, docond, dobody):
        """widening fixpoint for an undecided loop"""
        lid = ('L', fr.fn.get('id', '?'), s.get('l'), st.cnt)
        pre_mem = dict(st.mem)
        pre_trace = st.trace
        head = st.copy()
        head.trace = ()
        widened = {}
        wround = {}
        ts_seen = {head.ts}
        heads = [head]
        result = []
        iters = 0
        changed = True
        traces = set()
        while changed and iters < 12:
            iters += 1
            changed = False
            result = []
            traces = set()
            back = []
            newts = set()
            for ts in list(ts_seen):
                h = head.copy()
                h.ts = ts
                for x, b in docond(h):
                    if not b:
                        result.append(('n', x, None, 'exit'))
                        continue
                    nxt, outs = dobody(x)
                    for o in outs:
                        result.append(o + ('jump',))
                    for y in nxt:
                        traces.add(y.trace)
                        back.append(y)
                        newts.add(y.ts)
                        # compare with head
                        for k in set(y.mem) | set(head.mem):
                            hv = head.mem.get(k)
                            yv = y.mem.get(k)
                            if hv == yv:
                                continue
                            if k[0] in ('live', 'ref', 'lazy'):
                                if hv is None:
                                    continue
                            if k[0] == 'v' and hv is None:
                                continue   # declared inside the body
                            if self.loc_root_new(k, head):
                                continue
                            if hv is None:
                                hv = self.default(head, k)
                                if hv == yv:
                                    continue
                            if yv is None:
                                yv = self.default(y, k)
                                if yv == hv:
                                    continue
                            w = widened.get(k)
                            pv = pre_mem.get(k)
                            if pv is None:
                                pv = self.default(st, k)
                            if w is None:
                                nv = None
                                # induction variable?
                                if yv[0] == 't' and yv[1] == '+' and yv[2] == hv and yv[3][0] == 'c':
                                    nv = T('iv', lid + (self.short(k),), pv, yv[3][1])
                                elif hv[0] == 'c' and yv[0] == 'c' and isinstance(hv[1], int) and isinstance(yv[1], int) and hv == pv:
                                    nv = T('iv', lid + (self.short(k),), pv, yv[1] - hv[1])
                                elif hv[0] == 'it' and yv[0] == 'it' and hv[1] == yv[1] and pv == hv:
                                    d = arith('-', yv[2], hv[2])
                                    if d[0] == 'c':
                                        nv = ('it', hv[1], T('iv', lid + (self.short(k),), hv[2], d[1]))
                                if nv is None:
                                    nv = T('lw', lid + (self.short(k),))
                                head.mem[k] = nv
                                widened[k] = nv
                                wround[k] = (iters, yv)
                                changed = True
                            elif wround[k] == (iters, yv):
                                continue     # computed from the same head as the value that was just widened
                            elif w[0] == 'it' or w[1] == 'iv':
                                wi = w[2] if w[0] == 'it' else w
                                yi = yv[2] if w[0] == 'it' and yv[0] == 'it' else yv
                                if yi == T('+', wi, ('c', wi[4])):
                                    continue
                                head.mem[k] = T('lw', lid + (self.short(k),))
                                widened[k] = head.mem[k]
                                changed = True
            if newts - ts_seen:
                ts_seen |= newts
                changed = True
                if len(ts_seen) > 40:
                    raise Budget('typestate explosion in loop')
        if iters >= 12 and changed:
            # give every differing location up
            pass
        outs = []
        tr = frozenset(traces)
        self.loops[lid] = dict(wid=widened, pre={k: pre_mem.get(k) for k in widened}, head=head, back=back,
                               exits=[(o[1].copy(), o[3], o[2]) for o in result], fn=fr.fn, line=s.get('l'))
        for o in result:
            c, x, v, kind = o
            if tr != frozenset([()]) or x.trace:
                item = ()
                if tr and tr != frozenset([()]):
                    item = (('loop', lid, tr),)
                if kind == 'jump':
                    # partial last iteration
                    item = item + ((('last', x.trace),) if x.trace else ())
                x.trace = pre_trace + item
            else:
                x.trace = pre_trace
            outs.append((c, x, v))
        return self.join_outs(outs)

    def loc_root_new(self, k, head):
        """location belongs to an object created inside the loop body"""
        while k[0] in ('m', 'e', 'x'):
            a = k[1]
            if a[0] == 'o':
                return a not in head.cls
            if a[0] == 'p':
                k = a[1]
            else:
                return False
        if k[0] == 'v':
            if k[1] == 'tmp':
                return True
        return False

    def short(self, k):
        return k

    # ---- expressions -------------------------------------------------------
    def ev(self, st, e, fr):
        """evaluate to rvalue -> list of (state, value)"""
        if e is None:
            return [(st, VOID)]
        self.tick()
        k = e['k']
        if k == 'int':
            return [(st, ('c', e['v']))]
        if k == 'str':
            return [(st, ('s', e['v']))]
        if k == 'flt':
            return [(st, ('c', e['v']))]
        if k in ('null', 'zero'):
            if k == 'zero':
                t = self.ty(e['t'])
                if t.get('k') == 'rec':
                    return [(st, self.models.default_value(t.get('n', '')))]
            return [(st, ZERO)]
        return getattr(self, 'e_' + k)(st, e, fr)

    def read(self, st, l, e, fr):
        """rvalue of an lvalue expression"""
        t = self.ty(e['t'])
        if t.get('k') == 'rec':
            n = strip_type(t.get('n', ''))
            if kind_of_class(n) is None:
                if self.db.records.get(n) is not None:
                    return self.addr(l)
        if t.get('k') == 'arr':
            v = self.load(st, l, fr, e)
            if v[0] == 's':
                return v
            return self.addr(l)
        if t.get('k') == 'fun':
            return self.load(st, l, fr, e)
        return self.load(st, l, fr, e)

    def e_var(self, st, e, fr):
        return [(x, self.read(x, l, e, fr)) for x, l in self.lv(st, e, fr)]

    e_mem = e_var
    e_sub = e_var

    def e_this(self, st, e, fr):
        return [(st, fr.this)]

    def e_fn(self, st, e, fr):
        return [(st, ('f', e['f']))]

    def e_mfn(self, st, e, fr):
        return [(st, ('f', e['f']))]

    def e_unk(self, st, e, fr):
        states = [st]
        for a in e.get('a', []):
            nx = []
            for x in states:
                nx += self.ev_discard(x, a, fr)
            states = nx
        self.unmodelled[e['cls']] = self.unmodelled.get(e['cls'], 0) + 1
        return [(x, self.fresh(x, 'unk')) for x in states]

    def e_throw(self, st, e, fr):
        return []

    def e_stdil(self, st, e, fr):
        return self.ev(st, e['e'], fr)

    def e_ilist(self, st, e, fr):
        t = self.ty(e['t'])
        states = [(st, ())]
        for x in e['a']:
            nx = []
            for y, acc in states:
                for z, v in self.ev(y, x, fr):
                    nx.append((z, acc + (v,)))
            states = nx
        if t.get('k') == 'rec' and self.db.records.get(strip_type(t.get('n', ''))):
            out = []
            cls = strip_type(t['n'])
            fl = self.db.records[cls]['fields']
            for y, acc in states:
                y.cnt += 1
                loc = ('v', 'tmp', (self.depth, y.cnt))
                for f, v in zip(fl, acc):
                    y.mem[('m', ('p', loc), cls + '::' + f['n'])] = v
                out.append((y, ('p', loc)))
            return out
        if t.get('k') in ('arr', 'rec', 'other'):
            return [(y, ('arr', acc)) for y, acc in states]
        return [(y, acc[0] if acc else ZERO) for y, acc in states]

    def e_lambda(self, st, e, fr):
        st.cnt += 1
        caps = []
        for c in e['caps']:
            if 'this' in c:
                caps.append(('this', fr.this))
            elif 'id' in c:
                loc = ('v', fr.id, c['id'])
                if fr.caps and c['id'] in fr.caps:
                    loc = fr.caps[c['id']]
                if c['ref']:
                    caps.append((c['id'], loc))
                else:
                    nl = ('v', ('cl', st.cnt), c['id'])
                    v = st.mem.get(loc)
                    if v is not None:
                        st.mem[nl] = v
                        if ('ref', loc) in st.mem:
                            st.mem[('ref', nl)] = ONE
                    for k in [k for k in st.mem if k[0] in ('m', 'e') and self.sub_of(k, loc)]:
                        st.mem[self.rebase(k, loc, nl)] = st.mem[k]
                    caps.append((c['id'], nl))
        return [(st, ('cl', e['f'], tuple(caps)))]

    def rebase(self, k, old, new):
        if k == old:
            return new
        if k[0] in ('m', 'e') and k[1][0] == 'p':
            return (k[0], ('p', self.rebase(k[1][1], old, new))) + k[2:]
        return k

    def e_cast(self, st, e, fr):
        ck = e['ck']
        t = self.ty(e['t'])
        sub = e['e']
        if ck == 'ToVoid':
            return [(x, VOID) for x in self.ev_discard(st, sub, fr)]
        if ck == 'ArrayToPointerDecay':
            out = []
            if sub['k'] == 'str':
                return [(st, ('s', sub['v']))]
            for x, l in self.lv(st, sub, fr):
                v = x.mem.get(l)
                if v is None and l[0] == 'g':
                    v = self.global_value(x, l)
                if v is not None and v[0] == 's':
                    if self.ty(sub['t']).get('c') or 'const' in self.ty(sub['t'])['s']:
                        out.append((x, v))
                        continue
                out.append((x, ('p', l)))
            return out
        if ck in ('NullToPointer', 'NullToMemberPointer'):
            return [(st, ZERO)]
        if ck in ('DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'BitCast', 'LValueBitCast',
                  'NonAtomicToAtomic', 'AtomicToNonAtomic', 'Dynamic', 'LValueToRValue', 'NoOp', 'FunctionToPointerDecay'):
            return self.ev(st, sub, fr)
        out = []
        for x, v in self.ev(st, sub, fr):
            out.append((x, self.do_cast(v, ck, t, self.ty(sub['t']))))
        return out

    def do_cast(self, v, ck, t, ft):
        if ck in ('IntegralToBoolean', 'PointerToBoolean', 'FloatingToBoolean'):
            return mk_nz(v)
        if ck == 'IntegralCast':
            if v[0] == 'c':
                return self.wrap(v, t)
            if is_bool(v):
                return v
            if v[0] == 't' and t.get('w') and ft.get('w'):
                if t['w'] < ft['w']:
                    if v[1] == 'trunc' and v[3][1] <= t['w']:
                        return v
                    return T('trunc', v, ('c', t['w']))
                if t['w'] >= ft['w'] and ft.get('u') is False and t.get('u') and not (v[1] in ('size',)):
                    # sign change: keep the value number (reported separately where it matters)
                    return v
            return v
        if ck == 'FloatingToIntegral':
            if v[0] == 'c':
                return ('c', int(v[1]))
            return T('f2i', v)
        if ck == 'FloatingCast':
            if t.get('s') == 'float' and v[0] == 't':
                return T('tofloat', v)
            return v
        if ck == 'IntegralToFloating':
            if v[0] == 'c':
                return ('c', float(v[1]))
            return v
        return v

    def wrap(self, v, t):
        if not isinstance(v[1], int) or 'w' not in t:
            return v
        w = t['w']
        n = v[1] & ((1 << w) - 1)
        if not t.get('u') and n >> (w - 1):
            n -= 1 << w
        if t.get('k') == 'bool':
            n = 1 if v[1] else 0
        return ('c', n)

    def conv(self, v, t):
        if v[0] == 'c' and t.get('k') == 'int' and isinstance(v[1], int):
            return self.wrap(v, t)
        return v

    def e_cond(self, st, e, fr):
        out = []
        for x, b in self.cond(st, e['c'], fr):
            out += self.ev(x, e['x'] if b else e['y'], fr)
        return out

    def e_bin(self, st, e, fr):
        op = e['op']
        if op in ('&&', '||'):
            return [(x, ONE if b else ZERO) for x, b in self.cond(st, e, fr)]
        if op == ',':
            out = []
            for x in self.ev_discard(st, e['x'], fr):
                out += self.ev(x, e['y'], fr)
            return out
        out = []
        for x, a in self.ev(st, e['x'], fr):
            for y, b in self.ev(x, e['y'], fr):
                out.append((y, self.binop(op, a, b, self.ty(e['t']), self.ty(e['x']['t']))))
        return out

    def binop(self, op, a, b, t=None, xt=None):
        if op == '==':
            return mk_eq(a, b)
        if op == '!=':
            return mk_not(mk_eq(a, b))
        if op == '<':
            return mk_lt(a, b)
        if op == '>':
            return mk_lt(b, a)
        if op == '<=':
            return mk_not(mk_lt(b, a))
        if op == '>=':
            return mk_not(mk_lt(a, b))
        if op == '-' and (a[0] == 'p' and b[0] == 'p' or text_ptrs(a, b) or a[0] == 's' and a == b):
            ai, bi = ptr_index(a), ptr_index(b)
            if ai[0] == bi[0]:
                return arith('-', ai[1], bi[1])
        if op == '-' and a[0] in 'ps' and b[0] == 'c' and xt and xt.get('k') in ('ptr', 'arr'):
            op, b = '+', ('c', -b[1])
        if op == '+' and a[0] == 'p' and xt and xt.get('k') in ('ptr', 'arr'):
            r = ('p', ('e', a, b)) if a[1][0] != 'e' else ('p', ('e', a[1][1], mk_add(a[1][2], b)) + a[1][3:])
            return r[1][1] if r[1][1][0] == 's' and r[1][2] == ZERO else r
        if op == '+' and a[0] == 's' and xt and xt.get('k') in ('ptr', 'arr'):
            return a if b == ZERO else ('p', ('e', a, b))
        r = arith(op, a, b)
        if t and r[0] == 'c' and t.get('k') == 'int':
            r = self.wrap(r, t)
        return r

    def e_un(self, st, e, fr):
        op = e['op']
        if op == '!':
            return [(x, ZERO if b else ONE) for x, b in self.cond(st, e['e'], fr)] if e['e']['k'] == 'bin' and e['e']['op'] in ('&&', '||') \
                else [(x, mk_not(v)) for x, v in self.ev(st, e['e'], fr)]
        if op == '&':
            if e['e']['k'] in ('fn', 'mfn'):
                return [(st, ('f', e['e']['f']))]
            return [(x, self.addr(l)) for x, l in self.lv(st, e['e'], fr)]
        if op == '*':
            return [(x, self.read(x, l, e, fr)) for x, l in self.lv(st, e, fr)]
        if op in ('++', '--', 'p++', 'p--'):
            out = []
            d = ONE if '+' in op else ('c', -1)
            t = self.ty(e['t'])
            for x, l in self.lv(st, e['e'], fr):
                v = self.load(x, l, fr, e)
                if v[0] in 'ps' and t.get('k') == 'ptr':
                    n = self.binop('+', v, d, t, t)
                else:
                    n = mk_add(v, d)
                self.store(x, l, n, fr, e)
                out.append((x, v if op[0] == 'p' else n))
            return out
        out = []
        for x, v in self.ev(st, e['e'], fr):
            if op == '-':
                out.append((x, ('c', -v[1]) if v[0] == 'c' else T('neg', v)))
            elif op == '+':
                out.append((x, v))
            elif op == '~':
                out.append((x, ('c', ~v[1]) if v[0] == 'c' else T('inv', v)))
            elif op == '__extension__':
                out.append((x, v))
            else:
                out.append((x, T('un' + op, v)))
        return out

    def e_asg(self, st, e, fr):
        op = e['op']
        out = []
        t = self.ty(e['x']['t'])
        # evaluation order: right then left (C++17)
        for x, v in self.ev(st, e['y'], fr):
            for y, l in self.lv(x, e['x'], fr):
                if op == '=':
                    n = strip_type(t.get('n', ''))
                    if t.get('k') == 'rec' and kind_of_class(n) is None and self.db.records.get(n):
                        self.assign_record(y, l, v, n, fr)
                        out.append((y, ('p', l)))
                        continue
                    nv = v
                else:
                    nv = self.binop(op[:-1], self.load(y, l, fr, e), v, t, t)
                nv = self.conv(nv, t)
                self.store(y, l, nv, fr, e)
                out.append((y, nv))
        return out

    def e_new(self, st, e, fr):
        t = self.ty(e['ty'])
        n = strip_type(t.get('n', ''))
        states = [st]
        sz = None
        out = []
        if e.get('arr'):
            szs = self.ev(st, e['sz'], fr) if 'sz' in e else [(st, ONE)]
            for x, v in szs:
                o = self.new_obj(x, n + '[]')
                r = self.client.opaque(self, x, fr, {'qn': 'operator new[]', 'n': 'new[]', 'params': [], 'file': '', 'line': 0}, None, [v], e)
                x.mem[('alloc', o)] = v
                out.append((x, o))
            return out
        o = self.new_obj(st, n)
        self.client.opaque(self, st, fr, {'qn': 'operator new', 'n': 'new', 'params': [], 'file': '', 'line': 0}, o, [], e)
        if e.get('i') and e['i']['k'] == 'ctor' and kind_of_class(n) is None:
            return [(x, o) for x in self.run_ctor(st, o, e['i'], fr)]
        if e.get('i'):
            for x, v in self.ev(st, e['i'], fr):
                x.mem[('x', o)] = v
                out.append((x, o))
            return out
        return [(st, o)]

    def e_del(self, st, e, fr):
        out = []
        t = self.ty(e['e']['t'])
        for x, v in self.ev(st, e['e'], fr):
            r = self.client.opaque(self, x, fr, {'qn': 'operator delete', 'n': 'delete', 'params': [], 'file': '', 'line': 0}, None, [v], e)
            for y in self.run_dtor_dyn(x, v, strip_type(t.get('p', '')), fr):
                out.append((y, VOID))
        return out

    def run_dtor_dyn(self, st, v, cls, fr):
        d = st.cls.get(v, cls)
        if v == ZERO:
            return [st]
        if self.db.records.get(strip_type(d)):
            return self.run_dtor(st, v, strip_type(d), fr)
        return [st]

    def e_ctor(self, st, e, fr):
        """constructor expression as an rvalue"""
        n = strip_type(e['c'])
        kc = kind_of_class(n)
        if kc is None and self.db.records.get(n) is not None:
            if e.get('copy') and len(e['a']) == 1 and False:
                return self.ev(st, e['a'][0], fr)
            st.cnt += 1
            loc = ('v', 'tmp', (self.depth, st.cnt))
            st.cls[('p', loc)] = n
            out = []
            for x in self.run_ctor(st, ('p', loc), e, fr):
                out.append((x, ('p', loc)))
            return out
        out = []
        f = self.db.functions[e['f']]
        for x, args in self.ev_args(st, f, e['a'], fr):
            out += self.models.construct(self, x, fr, n, kc, f, args, e)
        return out

    # lvalues
    def lv(self, st, e, fr):
        """-> list of (state, location)"""
        self.tick()
        k = e['k']
        if k == 'var':
            if e['s'] == 'g':
                return [(st, ('g', e['id']))]
            loc = ('v', fr.id, e['id'])
            if fr.caps and e['id'] in fr.caps:
                loc = fr.caps[e['id']]
            if ('ref', loc) in st.mem:
                return [(st, self.deref_loc(st.mem[loc]))]
            return [(st, loc)]
        if k == 'mem':
            out = []
            key = e['c'] + '::' + e['n']
            if e['arrow']:
                for x, v in self.ev(st, e['b'], fr):
                    self.client.deref(self, x, fr, v, e, 'mem')
                    if v[0] == 'p':
                        v = self.addr(self.first_of(x, v[1]))
                    out.append((x, ('m', v, key)))
            else:
                for x, l in self.lv(st, e['b'], fr):
                    out.append((x, ('m', self.addr(l), key)))
            if e['c'].startswith('std::pair<') or kind_of_class(e['c']):
                out = [(x, self.models.member_loc(self, x, l, e)) for x, l in out]
            if e.get('fref'):
                out = [(x, self.deref_loc(self.load(x, l, fr, e))) for x, l in out]
            return out
        if k == 'un':
            if e['op'] == '*':
                out = []
                for x, v in self.ev(st, e['e'], fr):
                    self.client.deref(self, x, fr, v, e, '*')
                    l = self.models.deref(self, x, v)
                    if self.ty(e['t']).get('k') != 'arr':
                        l = self.first_of(x, l)
                    out.append((x, l))
                return out
            if e['op'] in ('++', '--'):
                out = []
                for x, l in self.lv(st, e['e'], fr):
                    v = self.load(x, l, fr, e)
                    d = ONE if e['op'] == '++' else ('c', -1)
                    t = self.ty(e['t'])
                    self.store(x, l, self.binop('+', v, d, t, t) if v[0] in 'ps' and t.get('k') == 'ptr' else mk_add(v, d), fr, e)
                    out.append((x, l))
                return out
        if k == 'sub':
            out = []
            for x, b in self.ev(st, e['b'], fr):
                for y, i in self.ev(x, e['i'], fr):
                    self.client.deref(self, y, fr, b, e, 'sub')
                    if b[0] == 'p' and b[1][0] == 'e' and not (e['b']['k'] == 'cast' and e['b'].get('ck') == 'ArrayToPointerDecay' and e['b']['e']['k'] == 'sub'):
                        out.append((y, ('e', b[1][1], mk_add(b[1][2], i)) + b[1][3:]))
                    else:
                        out.append((y, ('e', b, i)))
            return out
        if k == 'this':
            return [(st, ('v', fr.id, 'this'))]
        if k == 'cast':
            if e['ck'] in ('DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'LValueBitCast', 'NoOp', 'BitCast', 'Dynamic') or e.get('gl'):
                if e['e'].get('gl') or e['e']['k'] in ('var', 'mem', 'un', 'sub', 'call', 'ctor', 'cast'):
                    if e.get('gl') or self.ty(e['t']).get('k') == 'rec':
                        return self.lv(st, e['e'], fr)
        if k == 'call' and e.get('gl'):
            return [(x, self.deref_loc(v)) for x, v in self.do_call(st, e, fr)]
        if k == 'cond' and e.get('gl'):
            out = []
            for x, b in self.cond(st, e['c'], fr):
                out += self.lv(x, e['x'] if b else e['y'], fr)
            return out
        if k == 'asg':
            out = []
            for x, v in self.e_asg(st, e, fr):
                out += self.lv(x, e['x'], fr) if e['x']['k'] in ('var', 'mem') else [(x, self.tmp(x, v))]
            return out
        if k == 'bin' and e['op'] == ',':
            out = []
            for x in self.ev_discard(st, e['x'], fr):
                out += self.lv(x, e['y'], fr)
            return out
        if k == 'ctor' or k == 'ilist':
            n = strip_type(self.ty(e['t']).get('n', ''))
            if kind_of_class(n) is None and self.db.records.get(n):
                return [(x, v[1] if v[0] == 'p' else ('x', v)) for x, v in self.ev(st, e, fr)]
        # rvalue: materialise a temporary
        out = []
        for x, v in self.ev(st, e, fr):
            t = self.ty(e['t'])
            if v[0] == 'p' and t.get('k') == 'rec' and kind_of_class(t.get('n', '')) is None:
                out.append((x, v[1]))
            else:
                out.append((x, self.tmp(x, v)))
        return out

    def tmp(self, st, v):
        st.cnt += 1
        loc = ('v', 'tmp', (self.depth, st.cnt))
        st.mem[loc] = v
        return loc

    # ---- calls ------------------------------------------------------------
    def ev_args(self, st, f, args, fr):
        """-> list of (state, [argvalues]); reference parameters get addresses"""
        states = [(st, [])]
        ps = f.get('params', [])
        for i, a in enumerate(args):
            nx = []
            pt = self.ty(ps[i]['t']) if i < len(ps) else None
            for x, acc in states:
                if pt and pt.get('ref'):
                    for y, l in self.lv(x, a, fr):
                        nx.append((y, acc + [self.addr(l)]))
                elif pt and pt.get('k') == 'rec' and kind_of_class(pt.get('n', '')) is None and self.db.records.get(strip_type(pt.get('n', ''))):
                    n = strip_type(pt['n'])
                    x.cnt += 1
                    loc = ('v', 'tmp', (self.depth, x.cnt))
                    for y in self.init_record(x, loc, n, a, fr):
                        nx.append((y, acc + [('p', loc)]))
                else:
                    for y, v in self.ev(x, a, fr):
                        nx.append((y, acc + [self.conv(v, pt) if pt else v]))
            states = nx
        return states

    def e_call(self, st, e, fr):
        out = []
        t = self.ty(e['t'])
        for x, v in self.do_call(st, e, fr):
            if e.get('gl'):
                # call returned a reference: value is an address
                out.append((x, self.read(x, self.deref_loc(v), e, fr)))
            else:
                out.append((x, v))
        return out

    def do_call(self, st, e, fr):
        line = e.get('l')
        if line:
            fr.line = line
        if 'f' not in e:
            # indirect call
            out = []
            for x, fv in self.ev(st, e['fe'], fr):
                if fv[0] == 'f' and fv[1] in self.db.functions:
                    f = self.db.functions[fv[1]]
                    for y, args in self.ev_args(x, f, e['a'], fr):
                        out += self.dispatch(y, f, None, args, fr, e)
                else:
                    f = {'qn': '<indirect>', 'n': '<indirect>', 'params': [], 'file': '', 'line': 0, 'ret': e['t'], 'kind': 'fn'}
                    for y, args in self.ev_args(x, f, e['a'], fr):
                        r = self.client.opaque(self, y, fr, f, fv, args, e)
                        out += r if r is not None else [(y, self.fresh(y, 'indirect', fv))]
            return out
        f = self.db.functions[e['f']]
        out = []
        if e.get('o') is not None and f['kind'] in ('method', 'conv', 'dtor', 'ctor') and not f.get('static'):
            if f.get('lambda') or (f['n'] == 'operator()' and 'lambda' in f.get('cls', '')):
                for x, cv in self.ev(st, e['o'], fr):
                    for y, args in self.ev_args(x, f, e['a'], fr):
                        out += self.call_closure(y, cv, args, fr, e)
                return out
            if e.get('arrow'):
                objs = self.ev(st, e['o'], fr)
            else:
                objs = [(x, self.addr(l)) for x, l in self.lv(st, e['o'], fr)]
            cls = f.get('cls', '')
            kc = kind_of_class(cls)
            for x, a in objs:
                if e.get('arrow'):
                    self.client.deref(self, x, fr, a, e, 'call')
                for y, args in self.ev_args(x, f, e['a'], fr):
                    if kc is not None and 'body' not in f:
                        r = self.client.call(self, y, fr, f, a, args, e)
                        if r is not None:
                            out += r
                            continue
                        out += self.models.method(self, y, fr, kc, f, a, args, e)
                    else:
                        out += self.dispatch(y, f, a, args, fr, e)
            return out
        if e.get('o') is not None:
            for x in self.ev_discard(st, e['o'], fr):
                for y, args in self.ev_args(x, f, e['a'], fr):
                    out += self.dispatch(y, f, None, args, fr, e)
            return out
        for y, args in self.ev_args(st, f, e['a'], fr):
            out += self.dispatch(y, f, None, args, fr, e)
        return out

    def call_closure(self, st, cv, args, fr, node):
        if cv[0] != 'cl' or cv[1] not in self.db.functions:
            if cv[0] == 'f' and cv[1] in self.db.functions:
                return self.dispatch(st, self.db.functions[cv[1]], None, args, fr, node)
            return [(st, self.fresh(st, 'closure'))]
        f = self.db.functions[cv[1]]
        caps = {}
        this = None
        for k, l in cv[2]:
            if k == 'this':
                this = l
            else:
                caps[k] = l
        return self.invoke(st, f, this, args, fr, node, caps)

    def dispatch(self, st, f, this, args, fr, e):
        r = self.client.call(self, st, fr, f, this, args, e)
        if r is not None:
            return r
        if e is not None and e.get('virt') and f.get('virt') and this is not None:
            dyn = st.cls.get(this)
            if dyn is None and e.get('o') is not None and not e.get('arrow') and this[0] == 'p' and this[1][0] == 'v':
                dyn = self.pointee(e['o'])
            if dyn is not None and dyn in self.db.records:
                m = self.find_override(dyn, f['id'])
                g = self.db.functions[m]
                if m != f['id']:
                    r = self.client.call(self, st, fr, g, this, args, e)
                    if r is not None:
                        return r
                return self.enter(st, g, this, args, fr, e)
            # unknown dynamic class
            static = self.pointee(e['o']) if e.get('o') is not None else f['cls']
            o = e.get('o')
            if static not in self.db.records:
                static = f['cls']
            cands = OrderedDict()
            for c in self.all_subs(static):
                rec = self.db.records.get(c)
                if rec and not rec['abstract']:
                    cands[self.find_override(c, f['id'])] = 1
            cands = list(cands)
            pick = self.client.candidates(self, st, fr, f, this, args, e, cands)
            if pick is None:
                if len(cands) == 1:
                    pick = cands
                else:
                    return self.opaque(st, f, this, args, fr, e)
            out = []
            for i, m in enumerate(pick):
                y = st.copy() if i + 1 < len(pick) else st
                out += self.enter(y, self.db.functions[m], this, args, fr, e)
            return out
        return self.enter(st, f, this, args, fr, e)

    def enter(self, st, f, this, args, fr, e):
        if 'body' not in f or f.get('pure'):
            if f['kind'] == 'fn' or f.get('static') or kind_of_class(f.get('cls', '')) is None:
                r = self.models.function(self, st, fr, f, this, args, e)
                if r is not None:
                    return r
            return self.opaque(st, f, this, args, fr, e)
        # depth / recursion
        d = fr
        n = 0
        while d:
            if d.fn is f:
                n += 1
            d = d.parent
        if n >= self.recursion_limit or fr.depth >= self.max_depth:
            return self.opaque(st, f, this, args, fr, e)
        return self.invoke(st, f, this, args, fr, e)

    def opaque(self, st, f, this, args, fr, e):
        self.opaque_called[f['qn']] = self.opaque_called.get(f['qn'], 0) + 1
        r = self.client.opaque(self, st, fr, f, this, args, e)
        if r is not None:
            return r
        # havoc non-const reference / pointer arguments
        pure = bool(f.get('const'))
        ps = f.get('params', [])
        vals = []
        for i, a in enumerate(args):
            pt = self.ty(ps[i]['t']) if i < len(ps) else {}
            vals.append(self.argval(st, a, pt))
            if pt.get('ref') == 1 and not pt.get('c') and a[0] == 'p':
                self.havoc(st, a[1], f, i, fr, e)
                pure = False
            elif pt.get('k') == 'ptr' and not pt.get('pc') and a[0] == 'p' and 'void' != pt.get('p'):
                self.havoc(st, a[1], f, i, fr, e)
                pure = False
        rt = self.ty(f['ret']) if 'ret' in f else {}
        if rt.get('k') == 'void':
            return [(st, VOID)]
        if pure:
            tv = (this,) if this is not None else ()
            return [(st, ('t', 'call', f['qn']) + tv + tuple(vals))]
        v = self.fresh(st, f['qn'], *vals)
        if rt.get('ref'):
            return [(st, v)]
        return [(st, v)]

    def argval(self, st, a, pt):
        """value number of an argument (dereference const refs to value types)"""
        if pt.get('ref') and a[0] == 'p':
            k = pt.get('k')
            if k == 'rec' and kind_of_class(pt.get('n', '')) is None:
                return a
            return self.load(st, a[1])
        if pt.get('ref') and a[0] != 'p' and pt.get('k') != 'rec':
            return self.load(st, ('x', a))
        if pt.get('ref') and kind_of_class(pt.get('n', '')):
            return self.load(st, self.deref_loc(a))
        return a

    def havoc(self, st, loc, f, i, fr, e):
        for k in [k for k in st.mem if k != loc and self.sub_of(k, loc)]:
            del st.mem[k]
        st.cnt += 1
        self.store(st, loc, T('out', f['qn'], i, st.cnt), fr, e)

    def invoke(self, st, f, this, args, fr, e, caps=None):
        """inline a function body -> list of (state, return value)"""
        self.inlined.add(f['id'] if 'id' in f else f['qn'])
        if COVER is not None and f['qn'] not in COVER:
            COVER.add(f['qn'])
            with open(os.environ['VERIF_COVER'], 'a') as o:
                o.write('%s\t%s\n' % (f.get('file', ''), f['qn']))
        self.nframe += 1
        # frame ids must be deterministic per call chain so that states join
        fid = (fr.depth + 1, f.get('id', f['qn']))
        nf = Frame(fid, f, this, fr)
        nf.caps = caps
        nf.line = f['line']
        for p, a in zip(f['params'], args):
            loc = ('v', fid, p['id'])
            t = self.ty(p['t'])
            if t.get('ref'):
                st.mem[loc] = a
                st.mem[('ref', loc)] = ONE
            elif t.get('k') == 'rec' and kind_of_class(t.get('n', '')) is None and self.db.records.get(strip_type(t.get('n', ''))):
                self.assign_record(st, loc, a, strip_type(t['n']), fr)
            else:
                st.mem[loc] = a
        for p in f['params'][len(args):]:
            st.mem[('v', fid, p['id'])] = T('param', p['n'])
        states = [st]
        outs = []
        saved = self.depth
        self.depth = nf.depth
        if f['kind'] == 'ctor':
            for ini in f.get('inits', []):
                nx = []
                for x in states:
                    nx += self.ctor_init(x, ini, this, nf)
                states = self.join_states(nx)
        for x in states:
            outs += self.ex(x, f['body'], nf)
        res = []
        for c, x, v in outs:
            if c == 'n':
                v = VOID
            # drop locals of this frame
            dead = [k for k in x.mem if self.frame_local(k, fid)]
            keep_ret = v is not None and v[0] == 'p' and self.frame_local(v[1], fid)
            for k in dead:
                if keep_ret and self.sub_of(k, v[1]):
                    continue
                del x.mem[k]
            self.gc(x, v)
            res.append(('ret', x, v))
        res = [(x, v) for _, x, v in self.join_outs(res)]
        self.depth = saved
        return res

    def gc(self, st, v=None):
        """drop temporaries of this frame (and deeper) nothing refers to"""
        d = self.depth
        tmps = [k for k in st.mem if self.tmp_root(k, d)]
        if not tmps:
            return
        used = set()
        vals = [st.mem[k] for k in st.mem if not self.tmp_root(k, d)]
        if v is not None:
            vals.append(v)
        # transitively
        work = list(vals)
        groups = {}
        for k in tmps:
            groups.setdefault(self.tmp_root(k, d), []).append(k)
        seen = set()
        while work:
            x = work.pop()
            for y in subterms(x):
                if len(y) == 3 and y[0] == 'v' and y[1] == 'tmp' and y not in seen:
                    seen.add(y)
                    for k in groups.get(y, ()):
                        if k in st.mem:
                            work.append(st.mem[k])
        for k in tmps:
            if self.tmp_root(k, d) not in seen:
                del st.mem[k]

    def tmp_root(self, k, d):
        if k[0] in ('live', 'ref'):
            k = k[1]
        while k[0] in ('m', 'e', 'x'):
            a = k[1]
            if a[0] == 'p':
                k = a[1]
            else:
                return None
        if k[0] == 'v' and k[1] == 'tmp' and k[2][0] >= d:
            return k
        return None

    def frame_local(self, k, fid):
        if k[0] in ('live', 'ref'):
            k = k[1]
        while k[0] in ('m', 'e', 'x'):
            a = k[1]
            if a[0] == 'p':
                k = a[1]
            else:
                return False
        return k[0] == 'v' and k[1] == fid

    def ctor_init(self, st, ini, this, fr):
        e = ini['e']
        if 'm' in ini:
            loc = ('m', this, ini['c'] + '::' + ini['m'])
            # member type from record
            rec = self.db.records.get(ini['c'])
            ft = None
            for f in rec['fields']:
                if f['n'] == ini['m']:
                    ft = f
            t = self.ty(ft['t'])
            if t.get('ref'):
                out = []
                for x, l in self.lv(st, e, fr):
                    x.mem[loc] = self.addr(l)
                    out.append(x)
                return out
            if e is not None and e['k'] == 'unk' and e.get('cls') == 'ParenListExpr':
                return [st]
            return self.init_loc(st, loc, ft['t'], e, fr)
        # base / delegating
        if e is not None and e['k'] == 'ctor':
            return self.run_ctor(st, this, e, fr)
        return [st]

    # ---- entry points ---------------------------------------------------------
    def run(self, f, this=None, args=(), st=None):
        """analyse function f; returns list of (state, retval)"""
        if st is None:
            st = State()
        fr = Frame(('top',), {'qn': '<entry>', 'file': '', 'ret': 0}, None, None)
        return self.invoke(st, f, this, list(args), fr, None)

    def run_args(self, f, this=None, args=(), st=None):
        return self.run(f, this, args, st)

    def sym_args(self, f):
        out = []
        for p in f['params']:
            out.append(T('param', p['n']))
        return out

    def call_virtual(self, st, name, cls, this, args, nparams=None):
        """call the method `name` as resolved for dynamic class cls"""
        m = self.lookup(cls, name, nparams if nparams is not None else len(args))
        if m is None:
            raise KeyError('%s::%s' % (cls, name))
        fr = Frame(('top',), {'qn': '<entry>', 'file': '', 'ret': 0}, None, None)
        return self.invoke(st, self.db.functions[m], this, list(args), fr, None)

    def lookup(self, cls, name, nparams=None):
        queue = [cls]
        while queue:
            c = queue.pop(0)
            r = self.db.records.get(c)
            if not r:
                continue
            for m in r['methods']:
                f = self.db.functions[m]
                if f['n'] == name and (nparams is None or len(f['params']) == nparams) and ('body' in f or f.get('pure')):
                    return m
            queue += [b['n'] for b in r['bases']]
        return None
