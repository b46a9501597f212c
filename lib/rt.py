"""Round-trip engine: child elements added to / written by an element of unknown state."""
from absint import *
from dom import *

MIS = 'kmldom::Element::unknown_legal_elements_array_'
XF = 'kmlbase::XmlElement::xml_file_'


def flat(tr):
    """yield (event, in_loop_id, kind) of a trace"""
    for it in tr:
        if it[0] == 'loop' and isinstance(it[1], tuple):
            yield it, it[1], 'loop'
        elif it[0] == 'last' and len(it) == 2:
            for x in flat(it[1]):
                yield x[0], x[1], 'last'
        else:
            yield it, None, 'ev'


class Pair:
    def __init__(self, d, C, t):
        self.d = d
        self.C = C
        self.t = t

    def add(self, prep=None):
        d = self.d
        cl = DomClient()
        ip = Interp(d.db, cl)
        st = State()
        P = d.unknown_object(st, 'P', self.C)
        E = ('o', 1)
        st.cnt = 1
        cl.roots = (P,)
        sts, self.ecls = d.make(ip, st, self.t, E)
        self.ip, self.cl, self.P, self.E = ip, cl, P, E
        outs = []
        for s in sts:
            s.mem[('m', E, 'kmldom::Element::char_data_')] = CD
            for o in (P, E):
                s.mem[('m', o, XF)] = ZERO
            s.mem[('m', E, 'kmlbase::XmlElement::parent_')] = ZERO
            if prep:
                prep(s, ip, P, E)
            cl.want = lambda ev: False
            eloc = ip.tmp(s, E)
            outs += [s2 for s2, _ in ip.call_virtual(s, 'AddElement', self.C, P, [('p', eloc)])]
        return outs

    def serialize(self, s, want):
        self.cl.want = want
        s = s.copy()
        s.trace = ()
        return [x for x, _ in self.ip.call_virtual(s, 'Serialize', self.C, self.P, [S])]


def iv_of(x):
    """(loop id, start, step) of an induction variable index"""
    if x[0] == 't' and x[1] == 'iv':
        return x[2], x[3], x[4]
    return None


def index_in(ev, V):
    """the indices with which event ev draws from vector value V"""
    out = []

    def go(x):
        if not isinstance(x, tuple):
            return
        if len(x) == 4 and x[0] == 't' and x[1] == 'at' and x[2] == V:
            out.append(x[3])
            return
        for y in x:
            go(y)
    go(ev)
    return out


def hole(ev, V):
    """ev with the index replaced: the shape of an emission"""
    if not isinstance(ev, tuple):
        return ev
    if len(ev) == 4 and ev[0] == 't' and ev[1] == 'at' and ev[2] == V:
        return ('HOLE',)
    return tuple(hole(x, V) for x in ev)


def reversed_iv(i):
    """an index that falls as the loop goes on"""
    if i[0] != 't':
        return False
    if i[1] == 'iv':
        return isinstance(i[4], int) and i[4] < 0
    if i[1] == '+':
        return any(reversed_iv(x) for x in i[2:] if isinstance(x, tuple)) and not any(
            iv_of(x) and x[4] > 0 for x in i[2:] if isinstance(x, tuple))
    if i[1] == '-':
        return bool(iv_of(i[-1]) and i[-1][4] == 1) or (reversed_iv(i[2]) and i[-1][0] == 'c')
    return False


def cover(st, tr, V):
    """does the trace emit every element of vector value V exactly once, in order, in one shape?
    -> (True, shape) / (False, None) / (None, None): shape not understood"""
    NO, HUH = (False, None), (None, None)
    nxt = 0
    done = False
    shape = None
    for it in tr:
        if it[0] == 'loop' and isinstance(it[1], tuple):
            if done:
                return NO
            for body in it[2]:
                if any(b[0] in ('loop', 'last') for b in body):
                    return HUH
                if len(body) != 1:
                    return NO       # an iteration that emits nothing, or twice
                ix = set(index_in(body[0], V))
                if len(ix) != 1:
                    return NO
                i = ix.pop()
                h = hole(body[0], V)
                if shape is not None and h != shape:
                    return NO
                shape = h
                iv = iv_of(i)
                if iv is None:
                    if reversed_iv(i):
                        return NO
                    return HUH
                if iv[2] != 1 or iv[1] != ('c', nxt):
                    return NO
                if st.decide(T('lt', i, mk_size(V))) is not False:
                    return NO
            done = True
            continue
        if it[0] == 'last' and len(it) == 2:
            return NO
        ix = set(index_in(it, V))
        if len(ix) != 1 or done:
            return NO
        i = ix.pop()
        h = hole(it, V)
        if shape is not None and h != shape:
            return NO
        shape = h
        if i == ('c', nxt):
            nxt += 1
            continue
        if i[0] == 'c' or (mk_size(V)[0] != 'c' and not any(e[0] in ('loop', 'last') for e in tr)):
            return NO       # a fixed number of visits to a vector of any size
        return HUH
    if done:
        return True, shape
    n = mk_size(V)
    if n == ('c', nxt) or st.decide(mk_eq(n, ('c', nxt))) is True:
        return True, shape
    return NO


def vecs_in(tr):
    """the vector values the events of a trace draw from"""
    out = []
    for x in subterms(tr):
        if isinstance(x, tuple) and len(x) == 4 and x[0] == 't' and x[1] == 'at' and x[2] not in out:
            out.append(x[2])
    return out


NOISE = ('BeginElementArray', 'EndElementArray', 'BeginElementGroupArray', 'EndElementGroupArray', 'Indent', 'End')
