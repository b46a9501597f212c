"""What outlives a call: storage shared by all callers, process settings, sources of chance.

A dataflow over every function of the library: each use of a variable with static storage is classified by the
expression it stands in (read, written, changed through a method or a parameter, handed out), each write by where
the written value comes from."""
import re
import harness
from harness import guard
from eng import where

PROCESS = {'umask': 'the file mode mask', 'uselocale': 'the locale', 'setlocale': 'the locale', 'std::setlocale': 'the locale',
           'chdir': 'the working directory', 'fchdir': 'the working directory', 'chroot': 'the root directory',
           'setenv': 'the environment', 'putenv': 'the environment', 'unsetenv': 'the environment', 'clearenv': 'the environment',
           'signal': 'signal handling', 'sigaction': 'signal handling', 'sigprocmask': 'signal handling', 'alarm': 'timers',
           'srand': 'the random sequence', 'srandom': 'the random sequence', 'srand48': 'the random sequence',
           'setrlimit': 'the limits', 'nice': 'the priority', 'dup2': 'the open files', 'std::set_terminate': 'the handling of errors',
           'atexit': 'what happens at the end', 'exit': 'the process', '_exit': 'the process', 'abort': 'the process', 'std::terminate': 'the process',
           'std::locale::global': 'the locale', 'std::exit': 'the process', 'std::abort': 'the process', 'fork': 'the process', 'kill': 'the process', 'raise': 'the process'}
CHANCE = {'rand', 'std::rand', 'random', 'drand48', 'lrand48', 'mrand48', 'rand_r', 'time', 'std::time', 'clock', 'std::clock', 'gettimeofday', 'clock_gettime', 'getpid', 'getrandom', 'arc4random',
          'std::chrono::system_clock::now', 'std::chrono::steady_clock::now', 'std::chrono::_V2::system_clock::now', 'std::chrono::_V2::steady_clock::now', 'std::random_device::operator()'}
PASS = {'ArrayToPointerDecay', 'NoOp', 'BitCast', 'DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'LValueBitCast', 'LValueToRValue'}


def own(f):
    return 'body' in f and f.get('file') and not f['file'].startswith('/')


def parts(f):
    """the code of a function: body and initialisers"""
    out = [f['body']]
    for k in ('inits', 'init', 'ci'):
        if f.get(k):
            out.append(f[k])
    return out


def walk(n, up, visit):
    if isinstance(n, dict):
        if 'k' in n:
            visit(n, up)
            up = up + (n,)
        for v in n.values():
            if isinstance(v, (dict, list)):
                walk(v, up, visit)
    elif isinstance(n, list):
        for v in n:
            if isinstance(v, (dict, list)):
                walk(v, up, visit)


class Prog:
    def __init__(self, db):
        self.db = db
        self.fns = [f for f in db.functions.values() if own(f)]
        self.uses = {}      # global -> [(function, node, ancestors)]
        self.calls = {}     # function id -> {callee id}
        self.sites = {}     # callee qualified name -> [(function, node, ancestors)]
        for f in self.fns:
            self.scan(f)

    def scan(self, f):
        cs = self.calls.setdefault(f['id'], set())

        def visit(n, up):
            if n['k'] == 'var' and n.get('s') == 'g':
                self.uses.setdefault(n['id'], []).append((f, n, up))
            if isinstance(n.get('f'), str):
                cs.add(n['f'])
                g = self.db.functions.get(n['f'])
                if g:
                    self.sites.setdefault(g['qn'], []).append((f, n, up))
        for p in parts(f):
            walk(p, (), visit)

    def ty(self, t):
        return self.db.types[t] if isinstance(t, int) else t

    def const_param(self, f, i):
        """may the callee not change what it is given there"""
        if f is None or i >= len(f['params']):
            return None
        t = self.ty(f['params'][i]['t'])
        s = t.get('s', '')
        if t.get('ref') or s.endswith('&'):
            return s.startswith('const ')
        if t.get('k') == 'ptr' or s.endswith('*'):
            return bool(t.get('pc')) or s.startswith('const ')
        return True


def constant_type(t):
    """nothing of this type can change after it is made"""
    s = t.get('s', '')
    if t.get('k') == 'ptr':
        return bool(t.get('c'))
    return bool(t.get('c')) or s.startswith('const ') and t.get('k') != 'arr' or (t.get('k') == 'arr' and s.startswith('const ') and '*' not in s)


def depends(n):
    """what of a call an expression depends on: parameters, locals, the object"""
    got = set()

    def visit(x, up):
        if x['k'] == 'var' and x.get('s') in ('p', 'l'):
            got.add(x['n'])
        elif x['k'] == 'this':
            got.add('this')
    walk(n, (), visit)
    return got


def climb(P, n, up):
    """-> (kind, what, deref): how the variable is used"""
    deref = False
    cur = n
    for i in range(len(up) - 1, -1, -1):
        p = up[i]
        k = p['k']
        if k == 'mem' and p.get('b') is cur:
            deref = deref or bool(p.get('arrow'))
            cur = p
        elif k == 'sub' and p.get('b') is cur:
            t = P.ty(n['t'])
            deref = deref or t.get('k') == 'ptr'
            cur = p
        elif k == 'cast' and p.get('ck') in PASS:
            cur = p
        elif k == 'un' and p['op'] == '*':
            t = P.ty(n['t'])
            deref = deref or t.get('k') == 'ptr'
            cur = p
        elif k == 'un' and p['op'] in ('++', '--', 'p++', 'p--'):
            return 'count', p, deref
        elif k == 'un' and p['op'] == '&':
            cur = p
        elif k == 'asg' and p['x'] is cur:
            return ('write' if p['op'] == '=' else 'count'), p, deref
        elif k == 'cond' and cur is not p['c']:
            cur = p
        elif k == 'call':
            g = P.db.functions.get(p.get('f')) if p.get('f') else None
            if p.get('o') is cur:
                if g is None or g.get('const'):
                    return 'read', p, deref
                d = deref or bool(p.get('arrow')) and P.ty(cur['t']).get('k') == 'ptr'
                return 'method', p, d
            for j, a in enumerate(p.get('a', ())):
                if a is cur:
                    c = P.const_param(g, j)
                    if c is False:
                        t = P.ty(cur['t'])
                        pt = P.ty(g['params'][j]['t'])
                        byvalue_ptr = pt.get('k') == 'ptr' and not pt.get('ref')
                        return 'argument', p, deref or (byvalue_ptr and t.get('k') == 'ptr' and cur['k'] != 'un')
                    return 'read', p, deref
            return 'read', p, deref
        elif k == 'ctor':
            g = P.db.functions.get(p.get('f'))
            for j, a in enumerate(p.get('a', ())):
                if a is cur and P.const_param(g, j) is False:
                    return 'argument', p, True
            return 'read', p, deref
        elif k == 'decl':
            for d in p['d']:
                if d.get('i') is cur:
                    t = P.ty(d['t'])
                    s = t.get('s', '')
                    if s.endswith('&') and not s.startswith('const '):
                        return 'alias', p, deref
                    if cur['k'] == 'un' and not t.get('pc'):
                        return 'alias', p, deref
                    if t.get('k') == 'ptr' and cur['k'] == 'cast' and cur.get('ck') == 'ArrayToPointerDecay' and not t.get('pc'):
                        return 'alias', p, deref
            return 'read', p, deref
        elif k == 'del':
            return 'write', p, True
        else:
            return 'read', p, deref
    return 'read', n, deref


def mentions(n, gid):
    hit = []
    walk(n, (), lambda x, up: hit.append(1) if x['k'] == 'var' and x.get('id') == gid else None)
    return bool(hit)


def guarded(P, up, gid):
    """the branch of a condition on the variable itself that the place is in"""
    for i, p in enumerate(up):
        if p['k'] == 'if' and mentions(p['c'], gid):
            return p
    return None


def early_exit(P, f, gid):
    """`if (var) return ...;` before the rest: what follows runs only while the variable is unset"""
    b = f['body'].get('b', []) if isinstance(f['body'], dict) else []
    for s in b:
        if isinstance(s, dict) and s.get('k') == 'if' and mentions(s['c'], gid):
            x = s.get('x') or {}
            last = x.get('b', [x])[-1] if x.get('k') == 'blk' and x.get('b') else x
            if isinstance(last, dict) and last.get('k') == 'ret':
                return True
    return False


def only_shared(n):
    """does this code touch nothing of the call"""
    return not depends(n)


def shared(chk, P):
    tables = 0
    for gid, g in sorted(P.db.globals.items()):
        if not g.get('file') or g['file'].startswith('/') or g['file'].endswith('inst.cc'):
            continue
        t = P.ty(g['t'])
        loc = '%s:%s' % (g['file'], g.get('line', 0))
        name = g['n'].split('::')[-1] if g.get('local') else g['n']
        # the value it starts with
        if g.get('local') and g.get('i') is not None:
            dep = depends(g['i'])
            if dep:
                chk.bad('S1', '%s in %s' % (name, g['file']), loc, 'it is set once, from what the first call was given (%s), and kept for all later calls' % ', '.join(sorted(dep)))
                continue
        if constant_type(t):
            chk.ok('S1', name)
            tables += 1
            continue
        bad = unk = None
        for f, n, up in P.uses.get(gid, ()):
            kind, p, deref = climb(P, n, up)
            if kind == 'read':
                continue
            here = '%s (%s:%s)' % (f['qn'], f['file'], n.get('l'))
            if deref and t.get('k') == 'ptr' and t.get('pc'):
                continue
            if kind == 'count':
                bad = bad or '%s changes it by one call after the other' % here
            elif kind == 'write' and not deref and p['k'] == 'asg':
                dep = depends(p['y'])
                lazy = guarded(P, up, gid) is not None or early_exit(P, f, gid)
                if dep:
                    bad = bad or '%s keeps what it was given (%s) for later calls' % (here, ', '.join(sorted(dep)))
                elif t.get('k') == 'ptr' and lazy:
                    pass
                elif t.get('k') == 'ptr':
                    unk = unk or here
                else:
                    c = guarded(P, up, gid)
                    if c is not None and only_shared(c.get('x')) and only_shared(c['c']):
                        pass        # filled once, from nothing of the call
                    else:
                        bad = bad or '%s leaves a mark that later calls see' % here
            elif kind == 'write':
                if deref and t.get('k') == 'ptr' and p['k'] == 'asg' and not depends(p['y']) and guarded(P, up, gid):
                    continue
                bad = bad or '%s changes what all calls share' % here
            elif kind == 'method':
                if deref and own_class(P, t):
                    continue        # an object made once: decided by S2
                args = [a for a in p.get('a', ())]
                if any(depends(a) for a in args):
                    bad = bad or '%s keeps what it was given for later calls' % here
                elif guarded(P, up, gid) or early_exit(P, f, gid):
                    pass
                elif p.get('op') in ('[]', '*', '->') or (P.db.functions.get(p.get('f')) or {}).get('n') in ('begin', 'end', 'find', 'at', 'get', 'data', 'c_str'):
                    unk = unk or here
                else:
                    bad = bad or '%s changes what all calls share' % here
            elif kind == 'argument':
                if deref:
                    unk = unk or here
                    continue
                bad = bad or '%s lets another function change what all calls share' % here
            elif kind == 'alias':
                unk = unk or here
        key = '%s in %s' % (name, g['file'])
        if bad:
            chk.bad('S1', key, loc, 'storage shared by all calls: ' + bad)
        elif unk:
            chk.unk('S1', key, 'not followed: ' + unk)
        else:
            chk.ok('S1', key)
    chk.notes['constant tables'] = tables


def writers(P, cls):
    """methods of a class that change the object, directly or through others"""
    cs, todo = [], [cls]
    while todo:
        c = todo.pop()
        if c in P.db.records and c not in cs and c.startswith('kml') and c != 'kmlbase::Referent':
            cs.append(c)
            todo += [b if isinstance(b, str) else b.get('n', b.get('c', '')) for b in P.db.records[c].get('bases', ())]
    ms = [P.db.functions[m] for c in cs for m in P.db.records[c]['methods'] if m in P.db.functions and own(P.db.functions[m])]
    out = {}
    for f in ms:
        if f['kind'] != 'method' or f.get('static'):
            continue
        hit = []

        def visit(n, up):
            if n['k'] == 'this' and up:
                p = up[-1]
                if p['k'] == 'mem' and p.get('b') is n:
                    kind, q, deref = use_of(P, p, up[:-1])
                    if kind != 'read' and not deref:
                        hit.append((p['n'], n.get('l', f['line']), kind))
        for b in parts(f):
            walk(b, (), visit)
        if hit:
            out[f['id']] = hit
    return ms, out


def use_of(P, cur, up):
    """how a member of the object is used"""
    deref = False
    for i in range(len(up) - 1, -1, -1):
        p = up[i]
        k = p['k']
        if k == 'asg' and p['x'] is cur:
            return ('write' if p['op'] == '=' else 'count'), p, deref
        if k == 'un' and p['op'] in ('++', '--', 'p++', 'p--'):
            return 'count', p, deref
        if k == 'mem' and p.get('b') is cur or k == 'sub' and p.get('b') is cur:
            deref = deref or bool(p.get('arrow'))
            cur = p
            continue
        if k == 'cast' and p.get('ck') in PASS or k == 'un' and p['op'] == '&':
            cur = p
            continue
        if k == 'call':
            g = P.db.functions.get(p.get('f')) if p.get('f') else None
            if p.get('o') is cur:
                if g is None or g.get('const') or g['n'] in ('find', 'begin', 'end', 'at', 'data', 'get', 'lower_bound', 'upper_bound', 'count', 'operator*', 'operator->'):
                    return 'read', p, deref
                return 'method', p, deref or bool(p.get('arrow')) and P.ty(cur['t']).get('k') == 'ptr'
            for j, a in enumerate(p.get('a', ())):
                if a is cur and P.const_param(g, j) is False:
                    return 'argument', p, deref or P.ty(cur['t']).get('k') == 'ptr'
            return 'read', p, deref
        return 'read', p, deref
    return 'read', cur, deref


def own_class(P, t):
    """the class of the library that a plain or smart pointer to something changeable leads to"""
    c = None
    if t.get('k') == 'ptr':
        c = None if t.get('pc') else t.get('p')
    else:
        m = re.match(r'(?:boost|std)::(?:intrusive_ptr|scoped_ptr|shared_ptr|unique_ptr)<([\w:]+)', t.get('n', ''))
        c = m.group(1) if m else None
    return c if c in P.db.records and c.startswith('kml') else None


def made_once(chk, P):
    """objects reached from shared storage never change after they are made"""
    classes = {}
    for gid, g in P.db.globals.items():
        if not g.get('file') or g['file'].startswith('/'):
            continue
        t = P.ty(g['t'])
        c = own_class(P, t)
        if c:
            classes[c] = gid
    for cls, gid in sorted(classes.items()):
        ms, ws = writers(P, cls)
        ctors = {f['id'] for f in ms if f['kind'] == 'ctor'}
        for f in ms:
            if f['kind'] != 'method' or f.get('static'):
                continue
            key = f['qn']
            if f['id'] not in ws:
                chk.ok('S2', key)
                continue
            late = []
            for h in P.fns:
                if f['id'] in P.calls.get(h['id'], ()) and h['id'] not in ctors and h['id'] not in ws:
                    sites = [(n, up) for (x, n, up) in P.sites.get(f['qn'], ()) if x is h]
                    if not all(guarded(P, up, gid) for n, up in sites):
                        late.append(h)
            made = any(f['id'] in P.calls.get(c, ()) for c in ctors)
            if late or not made and f.get('acc') == 'public':
                m, l, kind = ws[f['id']][0]
                chk.bad('S2', key, '%s:%s' % (f['file'], l), 'changes %s of an object that all calls share%s' % (m, ', called by %s' % late[0]['qn'] if late else ''))
            else:
                chk.ok('S2', key)


def restores(P, f, name):
    """does every path through f that changes a setting put back what was there? -> None or the line"""
    held = set()

    def ev(n, st, stored):
        """events of an expression in evaluation order"""
        if isinstance(n, list):
            for x in n:
                st = ev(x, st, None)
            return st
        if not isinstance(n, dict):
            return st
        if n.get('k') == 'asg' and n['op'] == '=' and n['x'].get('k') in ('var', 'mem'):
            return ev(n['y'], st, n['x'].get('id') or n['x'].get('n'))
        g = P.db.functions.get(n['f']) if isinstance(n.get('f'), str) else None
        for k, v in n.items():
            if isinstance(v, (dict, list)):
                st = ev(v, st, stored if k in ('e', 'i') else None)
        if g is not None and g['qn'] == name and n['k'] == 'call':
            a = n.get('a', [])
            a = a[-1] if a else {}
            while isinstance(a, dict) and a.get('k') == 'cast':
                a = a['e']
            aid = a.get('id') or a.get('n') if isinstance(a, dict) and a.get('k') in ('var', 'mem') else None
            if st[0] == 'changed' and aid is not None and aid in st[1]:
                return ('clean', frozenset())
            if st[0] == 'changed':
                return st
            return ('changed', frozenset([stored]) if stored is not None else frozenset())
        return st
    outs = []

    def run(s, sts):
        if s is None or not isinstance(s, dict):
            return sts
        k = s.get('k')
        if k == 'blk':
            for x in s['b']:
                sts = run(x, sts)
            return sts
        if k == 'decl':
            for d in s['d']:
                if d.get('i') is not None:
                    sts = {ev(d['i'], x, d['id']) for x in sts}
            return sts
        if k == 'if':
            sts = {ev(s['c'], x, None) for x in sts}
            return run(s.get('x'), set(sts)) | run(s.get('y'), set(sts))
        if k in ('while', 'for', 'do', 'rfor', 'switch', 'try'):
            a = set(sts)
            for key in ('init', 'c', 'e'):
                v = s.get(key)
                if isinstance(v, dict):
                    a = run(v, a) if v.get('k') in ('decl', 'expr', 'blk') else {ev(v, x, None) for x in a}
            b = set(a)
            for _ in range(3):
                b |= run(s.get('b'), set(b))
                if isinstance(s.get('inc'), dict):
                    b |= {ev(s['inc'], x, None) for x in b}
            return b
        if k == 'ret':
            for x in sts:
                outs.append((ev(s['e'], x, None) if s.get('e') else x, s.get('l')))
            return set()
        if k in ('case', 'default', 'label'):
            return run(s.get('s'), sts)
        if k == 'expr':
            return {ev(s['e'], x, None) for x in sts}
        return sts
    end = run(f['body'], {('clean', frozenset())})
    outs += [(x, f.get('eline')) for x in end]
    for st, l in outs:
        if st[0] == 'changed':
            return l, st[1]
    return None


def process(chk, P):
    n = 0
    for qn, what in sorted(PROCESS.items()):
        fs = {}
        for f, node, up in P.sites.get(qn, ()):
            fs.setdefault(f['id'], f)
        for fid, f in sorted(fs.items()):
            n += 1
            key = '%s calls %s' % (f['qn'], qn)
            r = restores(P, f, qn)
            if r is None:
                chk.ok('S3', key)
                continue
            # kept in the object by a constructor and put back by the destructor of the same class
            if f['kind'] == 'ctor' and f.get('cls'):
                d = [P.db.functions[m] for m in P.db.records[f['cls']]['methods'] if P.db.functions.get(m, {}).get('kind') == 'dtor' and own(P.db.functions[m])]
                kept = {k for k in r[1] if isinstance(k, str)}
                back = False
                for x in d:
                    for y, node, up in P.sites.get(qn, ()):
                        if y is x:
                            names = set()
                            walk(node.get('a', []), (), lambda z, u: names.add(z['n']) if z['k'] == 'mem' else None)
                            back = back or bool(names & kept)
                made = [s for s in P.sites.get(f['qn'], ()) if any(u['k'] == 'new' for u in s[2])]
                if back and not made:
                    chk.ok('S3', key)
                    continue
            if f['kind'] == 'dtor' and f.get('cls') and any(y.get('cls') == f['cls'] and y['kind'] == 'ctor' for y, node, up in P.sites.get(qn, ())):
                chk.ok('S3', key)
                continue
            chk.bad('S3', key, '%s:%s' % (f['file'], r[0]), '%s of the process is not what it was when it returns' % what)
    chk.ok('S3', 'no other change of a process setting in %d functions' % len(P.fns))
    chk.notes['process settings changed'] = n


def chance(chk, P):
    callers = {}
    for a, bs in P.calls.items():
        for b in bs:
            callers.setdefault(b, set()).add(a)
    stop = {f['id'] for f in P.fns if f['qn'] in ('kmlbase::GetMicroTime', 'kmlbase::File::CreateNewTempFile')}
    for qn in sorted(CHANCE):
        for f, node, up in P.sites.get(qn, ()):
            seen, todo, roots = set(), [f['id']], []
            while todo:
                x = todo.pop()
                if x in seen or x in stop:
                    continue
                seen.add(x)
                cs = callers.get(x, set()) - {x}
                if not cs:
                    roots.append(x)
                todo += list(cs)
            key = '%s calls %s' % (f['qn'], qn)
            if f['id'] in stop or not roots:
                chk.ok('S4', key)
            else:
                chk.bad('S4', key, '%s:%s' % (f['file'], node.get('l')), 'the outcome of %s depends on %s' % (P.db.functions[roots[0]]['qn'], qn))
    chk.ok('S4', 'no other source of chance in %d functions' % len(P.fns))


def run(chk, db):
    chk.rule('S1', 'a variable shared by all calls is constant, or made once from nothing that a call was given and never changed again')
    chk.rule('S2', 'an object that all calls share is not changed by any function but those that make it')
    chk.rule('S3', 'every path through a function that changes a setting of the process puts the earlier one back')
    chk.rule('S4', 'no outcome depends on the clock, the process or chance, except the clock itself and the names of temporary files')
    P = Prog(db)
    for g in (shared, made_once, process, chance):
        guard(chk, g.__name__, g, chk, P)
    return dict(functions=len(P.fns), shared_variables=len(P.db.globals), call_sites=sum(len(v) for v in P.sites.values()))
