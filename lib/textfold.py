"""Transfer functions of loops over the characters of a string: which text does one iteration append for which character?
Works on the fixpoint the abstract interpreter found for the loop (Interp.loops): the guarded effects of one iteration
on the accumulated text, for an arbitrary position."""
from absint import *
import models


def parts(t):
    if t[0] == 't' and t[1] == 'cat':
        out = []
        for x in t[2:]:
            out += parts(x)
        return out
    return [t]


def char_ok(facts, c, code):
    """can character term c have value code under these facts? None: not understood"""
    sgn = code - 256 if code > 127 else code
    for k, v in facts.items():
        if not mentions(k, lambda y: y == c):
            continue
        r = test(k, c, sgn, code)
        if r is None:
            return None
        if r != v:
            return False
    return True


def test(k, c, sgn, code):
    if k[0] != 't':
        return None

    def val(x):
        if x == c:
            return sgn
        if x[0] == 'c' and isinstance(x[1], int):
            return x[1]
        if x[0] == 't' and x[1] in ('cast', 'conv', 'wrap', 'u8', 'trunc') and mentions(x, lambda y: y == c):
            return code
        return None
    if k[1] in ('eq', 'lt') and len(k) == 4:
        a, b = val(k[2]), val(k[3])
        if a is None or b is None:
            return None
        if k[1] == 'eq':
            return a == b or (a & 255) == (b & 255) and -128 <= b < 256
        return a < b
    if k[1] == 'nz':
        a = val(k[2])
        return None if a is None else a != 0
    if k[1] in ('strchr', 'memchr') and k[2][0] == 's':
        return chr(code) in k[2][1]
    return None


class NotUnderstood(Exception):
    pass


def charmap(ip, st, v, TEXT):
    """value v as a character-wise image of TEXT: {code: text}; raises NotUnderstood"""
    if v == TEXT:
        return {c: chr(c) for c in range(1, 256)}
    if not (v[0] == 't' and v[1] == 'lw'):
        raise NotUnderstood('result is not built by a loop over the text')
    lk = v[2]
    lid, key = lk[:-1], lk[-1]
    rec = ip.loops.get(lid)
    if rec is None:
        raise NotUnderstood('loop unknown')
    if rec['pre'].get(key) not in (('s', ''), None, UNDEF):
        raise NotUnderstood('accumulated text does not start empty')
    head = v
    src, out = None, {}
    for y in rec['back']:
        nv = y.mem.get(key)
        ps = parts(nv)
        if ps[0] != head:
            raise NotUnderstood('an iteration does not extend the text')
        ps = ps[1:]
        # the character this iteration looks at
        cs = set()
        for k in y.facts:
            for x in subterms(k):
                if x[:2] == ('t', 'chr') and len(x) == 4:
                    cs.add(x)
        for p in ps:
            for x in subterms(p):
                if x[:2] == ('t', 'chr') and len(x) == 4:
                    cs.add(x)
        cs = set(x for x in cs if mentions(x[3], lambda y2: y2[:2] == ('t', 'iv') and y2[2][:-1] == lid))
        if len(cs) != 1:
            raise NotUnderstood('an iteration looks at %d characters' % len(cs))
        c = cs.pop()
        iv = c[3]
        if iv[:2] != ('t', 'iv') or iv[3] != ZERO or iv[4] != 1:
            raise NotUnderstood('not a walk over every character')
        if src is not None and src != c[2]:
            raise NotUnderstood('two texts')
        src = c[2]
        for code in range(1, 256):
            ok = char_ok(y.facts, c, code)
            if ok is None:
                raise NotUnderstood('condition on the character')
            if not ok:
                continue
            t = ''
            for p in ps:
                if p[0] == 's':
                    t += p[1]
                elif p == T('ch', c):
                    t += chr(code)
                else:
                    raise NotUnderstood('appended text')
            out.setdefault(code, set()).add(t)
    if src is None:
        raise NotUnderstood('no iteration')
    # the loop ends only at the end of the text
    for x, kind, _ in rec['exits']:
        if kind == 'jump':
            raise NotUnderstood('the loop may stop early')
    full = False
    iv = T('iv', lid + (None,), ZERO, 1)
    for k, val in st.facts.items():
        if k[:2] == ('t', 'lt') and k[2][:2] == ('t', 'iv') and k[2][2][:-1] == lid and k[3] == mk_size(src) and val is False:
            full = True
        if k[:2] == ('t', 'eq') and val is True and mk_size(src) in k and any(z[:2] == ('t', 'iv') and z[2][:-1] == lid for z in k[2:]):
            full = True
    if not full:
        raise NotUnderstood('the loop may not reach the end of the text')
    res = {}
    inner = charmap(ip, st, src, TEXT)
    for code in range(1, 256):
        t = ''
        for ch in inner[code]:
            o = out.get(ord(ch), set())
            if len(o) != 1:
                raise NotUnderstood('character %d not determined' % ord(ch))
            t += next(iter(o))
        res[code] = t
    return res


def absent(facts, V):
    """what the facts say V does not contain: (characters, substrings, other facts about V)"""
    chars, subs, other = set(), set(), []
    for k, v in facts.items():
        if not mentions(k, lambda y: y == V):
            continue
        if k[:2] == ('t', 'eq') and models.NPOS in k and v is True:
            x = k[2] if k[3] == models.NPOS else k[3]
            if x[0] == 't' and x[1] in ('find', 'rfind') and x[2] == V and len(x) == 4 and x[3][0] == 's':
                if len(x[3][1]) == 1:
                    chars.add(x[3][1])
                subs.add(x[3][1])
                continue
            if x[0] == 't' and x[1] in ('find_first_of', 'find_last_of') and x[2] == V and len(x) == 4 and x[3][0] == 's':
                chars |= set(x[3][1])
                continue
        if k[:2] == ('t', 'eq') and models.NPOS in k:
            x = k[2] if k[3] == models.NPOS else k[3]
            if x[0] == 't' and x[1] in ('find', 'rfind', 'find_first_of', 'find_last_of') and x[2] == V:
                continue       # says that it does contain something
        if k == mk_nz(mk_size(V)):
            if v is False:
                chars |= set(chr(i) for i in range(1, 256))
            continue
        other.append(k)
    return chars, subs, other


def lacks(chars, subs, what):
    return any(c in chars for c in what) or any(s and s in what for s in subs)
