"""Program database: runs the libTooling extractor over /repo's current working
tree (every run) and loads the resolved program."""
import json, os, subprocess, sys, hashlib, tempfile, shutil, pickle

REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EXTRACT = os.path.join(HERE, 'build', 'extract')
FLAGS = ['-I%s/src' % REPO, '-I/usr/include/uriparser', '-I/usr/include/minizip',
         '-std=gnu++17', '-fno-rtti', '-DNDEBUG', '-fPIC', '-w',
         '-resource-dir', '/usr/lib/llvm-18/lib/clang/18']
# not part of the Linux build (CMakeLists.txt): win32 file backend, the XSD
# table (textually included by xsd.cc) and the strptime fallback.
EXCLUDE = {'base/file_win32.cc', 'dom/kml22.cc'}
EXTRA = ['base/contrib/minizip/unzip.c', 'base/contrib/minizip/iomem_simple.c']


class AnalysisBroken(Exception):
    pass


INST = os.path.join(HERE, 'extractor', 'inst.cc')


def tu_list():
    out = []
    root = os.path.join(REPO, 'src', 'kml')
    for d in sorted(os.listdir(root)):
        p = os.path.join(root, d)
        if not os.path.isdir(p):
            continue
        for f in sorted(os.listdir(p)):
            if f.endswith('.cc') and '%s/%s' % (d, f) not in EXCLUDE:
                out.append(os.path.join(p, f))
    for e in EXTRA:
        p = os.path.join(root, e)
        if os.path.exists(p):
            out.append(p)
    return out


def tree_hash():
    h = hashlib.sha256()
    for base, dirs, files in os.walk(os.path.join(REPO, 'src')):
        dirs.sort()
        for f in sorted(files):
            if f.endswith(('.h', '.cc', '.c')):
                p = os.path.join(base, f)
                h.update(p.encode())
                with open(p, 'rb') as fh:
                    h.update(fh.read())
    for p in (EXTRACT, INST):
        with open(p, 'rb') as fh:
            h.update(fh.read())
    with open(os.path.abspath(__file__), 'rb') as fh:
        h.update(fh.read())
    return h.hexdigest()


def ensure_extractor():
    src = os.path.join(HERE, 'extractor', 'extract.cc')
    if os.path.exists(EXTRACT) and os.path.getmtime(EXTRACT) >= os.path.getmtime(src) - 1:
        return
    if os.path.exists(EXTRACT) and os.environ.get('VERIF_KEEP_EXTRACTOR'):
        return
    r = subprocess.run(['bash', os.path.join(HERE, 'extractor', 'build.sh')],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode and not os.path.exists(EXTRACT):
        raise AnalysisBroken('extractor does not build: ' + r.stdout.decode()[-500:])


class DB:
    pass


def _retype(node, tmap):
    st = [node]
    while st:
        n = st.pop()
        if isinstance(n, dict):
            t = n.get('t')
            if t is not None and 'k' in n:
                n['t'] = tmap[t]
            if 'ty' in n and isinstance(n['ty'], int):
                n['ty'] = tmap[n['ty']]
            for k, v in n.items():
                if isinstance(v, (dict, list)):
                    st.append(v)
        elif isinstance(n, list):
            for v in n:
                if isinstance(v, (dict, list)):
                    st.append(v)


def _setvd(body, tmap, voff):
    """remap variable ids (ints) and decl types"""
    st = [body]
    while st:
        n = st.pop()
        if isinstance(n, dict):
            if 't' in n and isinstance(n['t'], int):
                n['t'] = tmap[n['t']]
            if 'ty' in n and isinstance(n['ty'], int):
                n['ty'] = tmap[n['ty']]
            if 'id' in n and isinstance(n['id'], int):
                n['id'] = n['id'] + voff
            for v in n.values():
                if isinstance(v, (dict, list)):
                    st.append(v)
        else:
            for v in n:
                if isinstance(v, (dict, list)):
                    st.append(v)


def load(jobs=8, cache=None):
    ensure_extractor()
    if cache is None:
        cache = os.environ.get('VERIF_DB_CACHE')
    key = None
    if cache:
        key = os.path.join(cache, tree_hash() + '.pkl')
        if os.path.exists(key):
            with open(key, 'rb') as fh:
                return pickle.load(fh)
    tus = tu_list()
    tmp = tempfile.mkdtemp(prefix='verifdb')
    try:
        procs = []
        # balance by interleaving
        chunks = [tus[i::jobs] for i in range(jobs)]
        for i, c in enumerate(chunks):
            if not c:
                continue
            o = os.path.join(tmp, '%d.json' % i)
            log = open(os.path.join(tmp, '%d.log' % i), 'wb')
            procs.append((subprocess.Popen([EXTRACT, o, REPO + '/src/kml/', '--'] + FLAGS + ['--'] + c,
                                           stdout=log, stderr=log), o, log))
        # template instantiations: useful but not essential (the templates may have been renamed)
        o = os.path.join(tmp, 'inst.json')
        log = open(os.path.join(tmp, 'inst.log'), 'wb')
        procs.append((subprocess.Popen([EXTRACT, o, REPO + '/src/kml/', '--'] + FLAGS + ['--', INST], stdout=log, stderr=log), o, log))
        parts = []
        for p, o, log in procs:
            p.wait()
            log.close()
            if p.returncode != 0 and o.endswith('inst.json'):
                continue
            if p.returncode != 0:
                with open(log.name, 'rb') as fh:
                    sys.stderr.write(fh.read().decode(errors='replace')[-3000:])
                raise AnalysisBroken('a translation unit does not parse (see stderr)')
            with open(o) as fh:
                parts.append(json.load(fh))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    db = DB()
    db.functions, db.records, db.enums, db.globals, db.types, db.tus = {}, {}, {}, {}, [], []
    tids = {}
    voff = 0
    for part in parts:
        tmap = []
        for t in part['types']:
            if t['s'] not in tids:
                tids[t['s']] = len(db.types)
                db.types.append(t)
            tmap.append(tids[t['s']])
        for fid, f in part['functions'].items():
            old = db.functions.get(fid)
            if old is not None and ('body' in old or 'body' not in f):
                continue
            _setvd(f, tmap, voff)
            f['ret'] = tmap[f['ret']]
            f['id'] = fid
            db.functions[fid] = f
        for n, r in part['records'].items():
            if n in db.records:
                # merge method lists (implicit members appear only where used)
                have = set(db.records[n]['methods'])
                for m in r['methods']:
                    if m not in have:
                        db.records[n]['methods'].append(m)
                continue
            for f in r['fields']:
                _setvd(f, tmap, voff)
            r['n'] = n
            db.records[n] = r
        for n, e in part['enums'].items():
            db.enums.setdefault(n, e)
        for n, g in part['globals'].items():
            old = db.globals.get(n)
            if old is not None and ('i' in old or 'i' not in g):
                continue
            _setvd(g, tmap, voff)
            db.globals[n] = g
        db.tus += [t['file'] for t in part['tus'] if t['file'] != INST]
        voff += 10000000
    finish(db)
    if key:
        os.makedirs(cache, exist_ok=True)
        for old in os.listdir(cache):
            try:
                if len(os.listdir(cache)) > 6:
                    os.unlink(os.path.join(cache, old))
            except OSError:
                pass
        with open(key + '.tmp%d' % os.getpid(), 'wb') as fh:
            pickle.dump(db, fh, protocol=4)
        os.replace(key + '.tmp%d' % os.getpid(), key)
    return db


def written_globals(db):
    """globals some expression may write: assigned, incremented, address taken, or passed where a
    non-const pointer or reference is expected"""
    out = set()

    def root(e):
        while isinstance(e, dict):
            k = e.get('k')
            if k == 'var':
                return e['id'] if e.get('s') == 'g' else None
            if k == 'sub' or (k == 'mem' and not e.get('arrow')):
                e = e['b']
            elif k == 'cast':
                e = e['e']
            else:
                return None
        return None

    def mark(e):
        r = root(e)
        if r is not None:
            out.add(r)

    def walk(n):
        st = [n]
        while st:
            x = st.pop()
            if isinstance(x, list):
                st.extend(y for y in x if isinstance(y, (dict, list)))
                continue
            k = x.get('k')
            if k == 'asg':
                mark(x['x'])
            elif k == 'un' and x.get('op') in ('++', '--', 'p++', 'p--', '&'):
                mark(x['e'])
            elif k in ('call', 'ctor') and 'a' in x:
                f = db.functions.get(x.get('f'))
                ps = f['params'] if f else []
                for i, a in enumerate(x['a']):
                    t = db.types[ps[i]['t']] if i < len(ps) else None
                    if t is None or ((t.get('ref') or t.get('k') == 'ptr') and 'const' not in t['s']):
                        mark(a)
            st.extend(y for y in x.values() if isinstance(y, (dict, list)))
    for f in db.functions.values():
        if 'body' in f:
            walk(f['body'])
        if f.get('inits'):
            walk(f['inits'])
    return out


def finish(db):
    db.written = written_globals(db)
    db.by_qn = {}
    for fid, f in db.functions.items():
        db.by_qn.setdefault(f['qn'], []).append(fid)
    # class hierarchy
    db.subs = {}
    for n, r in db.records.items():
        for b in r['bases']:
            db.subs.setdefault(b['n'], []).append(n)
    # transitive overridden sets
    def ovr(fid, seen):
        for o in db.functions[fid].get('ovr', []):
            if o not in seen:
                seen.add(o)
                if o in db.functions:
                    ovr(o, seen)
        return seen
    db.ovr = {}
    for fid, f in db.functions.items():
        if f.get('ovr'):
            db.ovr[fid] = ovr(fid, set())
    # methods by class
    db.methods = {}
    for fid, f in db.functions.items():
        c = f.get('cls')
        if c:
            db.methods.setdefault(c, []).append(fid)
