"""Objects made by the program's own constructors and setters, floating terms as linear forms, order facts."""
from eng import *
from fractions import Fraction
import itertools


def ctor(d, cls, np):
    r = [d.db.functions[m] for m in d.db.records[cls]['methods'] if d.db.functions[m]['kind'] == 'ctor' and len(d.db.functions[m]['params']) == np
         and 'body' in d.db.functions[m] and not d.db.functions[m].get('copy')]
    if len(r) != 1:
        raise AnalysisBroken('%s: %d constructors of %d parameters' % (cls, len(r), np))
    return r[0]


def single(rs, what):
    if len(rs) != 1:
        raise AnalysisBroken('%s has %d paths' % (what, len(rs)))
    return rs[0]


def value_object(d, ip, st, cls, name, args=None):
    """an object of a class made by its constructor; -> state, object"""
    o = obj(st, name, cls)
    st.mem[('exact', o)] = ONE
    if args is None:
        f = [d.db.functions[m] for m in d.db.records[cls]['methods'] if d.db.functions[m]['kind'] == 'ctor' and not d.db.functions[m]['params'] and 'body' in d.db.functions[m]]
        if not f:
            raise AnalysisBroken('%s has no default constructor' % cls)
        f = f[0]
        args = []
    else:
        f = ctor(d, cls, len(args))
    s, v = single(ip.run(f, o, list(args), st), '%s constructor' % cls)
    return s, o


def refarg(ip, st, p, a):
    t = ip.ty(p['t'])
    if not t.get('ref') or a[0] == 'p' or t.get('k') == 'rec' and kind_of_class(t.get('n', '')) is None:
        return a
    return ('p', ip.tmp(st, a))


def do(ip, st, o, cls, name, *vals):
    """run a method with the given values (references get a temporary); the single result -> state, value"""
    cands = []
    todo = [cls]
    while todo and not cands:
        nxt = []
        for c in todo:
            r = ip.db.records.get(c)
            if r is None:
                continue
            cands += [ip.db.functions[m] for m in r['methods'] if ip.db.functions[m]['n'] == name and len(ip.db.functions[m]['params']) == len(vals) and 'body' in ip.db.functions[m]]
            nxt += [b['n'] if isinstance(b, dict) else b for b in r.get('bases', [])]
        todo = nxt
    if len(cands) != 1:
        raise AnalysisBroken('%s::%s: %d candidates' % (cls, name, len(cands)))
    f = cands[0]
    args = [refarg(ip, st, p, a) for p, a in zip(f['params'], vals)]
    return single(ip.run(f, o, args, st), '%s::%s' % (cls, name))


def element(d, ip, st, cls, name, *calls):
    """a new element of kmldom::<cls> on which the given setters have been called"""
    full = cls if '::' in cls else 'kmldom::' + cls
    st, o = value_object(d, ip, st, full, name)
    for c in calls:
        st, _ = do(ip, st, o, full, c[0], *c[1:])
    return st, o


def flin(t):
    """a floating term as {atom: Fraction, 1: constant}"""
    if t[0] == 'c':
        return {1: Fraction(t[1])} if t[1] else {}
    if t[0] == 't' and t[1] in ('+', '-', '*', '/', 'neg', 'conv', 'fext', 'ftrunc', 'i2f'):
        op = t[1]
        a = flin(t[2])
        if op in ('conv', 'fext', 'ftrunc', 'i2f'):
            return a
        if op == 'neg':
            return {k: -v for k, v in a.items()}
        b = flin(t[3])
        if op in '+-':
            r = dict(a)
            for k, v in b.items():
                r[k] = r.get(k, 0) + (v if op == '+' else -v)
            return {k: v for k, v in r.items() if v}
        if op == '*':
            for x, y in ((a, b), (b, a)):
                if set(x) <= {1}:
                    c = x.get(1, Fraction(0))
                    return {k: v * c for k, v in y.items() if v * c}
        if op == '/' and set(b) == {1}:
            return {k: v / b[1] for k, v in a.items()}
    return {t: Fraction(1)}


def feq(a, b):
    return flin(a) == flin(b)


def order(s, extra=()):
    """the order facts of a state as edges (a, b, strict): a < b or a <= b"""
    es = list(extra)
    for k, b in s.facts.items():
        if k[0] == 't' and k[1] == 'lt':
            es.append((k[2], k[3], True) if b else (k[3], k[2], False))
        if k[0] == 't' and k[1] == 'eq' and b:
            es.append((k[2], k[3], False))
            es.append((k[3], k[2], False))
    return es


class Order:
    """what follows from the order facts of a state (values totally ordered; linear forms are atoms, averages lie between)"""
    def __init__(self, s, extra=(), terms=()):
        es = order(s, extra)
        nodes = set()
        form = {}

        def node(t):
            f = tuple(sorted(flin(t).items(), key=repr))
            form.setdefault(f, t)
            nodes.add(f)
            return f
        es = [(node(a), node(b), st) for a, b, st in es]
        for t in terms:
            node(t)
        for f in list(nodes):
            # (a+b)/2 lies between a and b
            d = dict(f)
            at = [k for k in d if k != 1]
            if len(at) == 2 and 1 not in d and all(d[k] == Fraction(1, 2) for k in at):
                self_mid = f
                na, nb = node(at[0]), node(at[1])
                self.mid = getattr(self, 'mid', []) + [(self_mid, na, nb)]
        for f in list(nodes):
            if set(dict(f)) <= {1}:
                for g in list(nodes):
                    if g != f and set(dict(g)) <= {1}:
                        x, y = dict(f).get(1, 0), dict(g).get(1, 0)
                        es.append((f, g, True) if x < y else (g, f, True))
        self.r = {}
        for a, b, strict in es:
            if self.r.get((a, b)) is not True:
                self.r[(a, b)] = strict
        ch = True
        while ch:
            ch = False
            for m, a, b in getattr(self, 'mid', []):
                for lo, hi in ((a, b), (b, a)):
                    if (lo, hi) in self.r:
                        for x, y in ((lo, m), (m, hi)):
                            if (x, y) not in self.r or (self.r[(lo, hi)] and not self.r[(x, y)]):
                                self.r[(x, y)] = self.r[(lo, hi)]
                                ch = True
            for (a, b), s1 in list(self.r.items()):
                for (c, e), s2 in list(self.r.items()):
                    if b == c:
                        st = s1 or s2
                        if (a, e) not in self.r or (st and not self.r[(a, e)]):
                            self.r[(a, e)] = st
                            ch = True
        self.ok = not any(a == b and st for (a, b), st in self.r.items())

    def key(self, t):
        return tuple(sorted(flin(t).items(), key=repr))

    def lt(self, a, b):
        """True / False / None"""
        a, b = self.key(a), self.key(b)
        if a == b:
            return False
        if set(dict(a)) <= {1} and set(dict(b)) <= {1}:
            return dict(a).get(1, 0) < dict(b).get(1, 0)
        if self.r.get((a, b)) is True:
            return True
        if (b, a) in self.r:
            return False
        return None


def lt(s, a, b, extra=()):
    r = Order(s, extra, (a, b)).lt(a, b)
    if r is None:
        raise Undecided(mk_lt(a, b))
    return r


def consistent(s, extra=()):
    return Order(s, extra).ok
