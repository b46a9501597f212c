"""KMZ / ZIP archives: the table of contents, reading an entry, adding entries, the default KML file."""
from eng import *
import posixpath
import harness
from harness import guard
from ids import report, where
from build import single

ZF, KZ = 'kmlbase::ZipFile', 'kmlengine::KmzFile'
P, OUT, DATA = T('path'), T('out0'), T('zipdata')
U = T('trunc', T('usize'), ('c', 32))     # entry sizes and the limit are 32-bit
W = '\x01'     # stands for any run of ordinary characters


def S(x):
    return ('s', x)


class ZCl(EngClient):
    """the ZIP libraries: every call may succeed or fail; handles and buffers are tracked"""
    def __init__(self, d):
        super().__init__()
        self.d = d

    def ev(self, st, *e):
        st.trace = st.trace + (e,)

    def fallible(self, ip, st, fr, atom, node, ok, err):
        out = []
        for x, b in ip.split(st, atom, fr, node):
            if b and ok[0] == 't':
                x.assume(mk_nz(ok), True)
            out.append((x, ok if b else err))
        return out

    def call(self, ip, st, fr, g, this, args, node):
        n, qn = g['n'], g['qn']
        if this is None and 'body' not in g or n.startswith(('libkml_unz', 'mem_simple')):
            v = self.vals(ip, st, g, args)
            if n == 'mem_simple_create_file':
                self.ev(st, 'mem', v[1], args[2])
                return self.fallible(ip, st, fr, T('membufok'), node, T('MEM'), ZERO)
            if n == 'libkml_unzAttach':
                self.ev(st, 'attach', args[0])
                out = []
                for x, b in ip.split(st, T('attachok'), fr, node):
                    if b:
                        x.assume(mk_nz(T('UNZ')), True)
                    out.append((x, T('UNZ') if b else ZERO))
                return out
            if n == 'libkml_unzLocateFile':
                self.ev(st, 'locate', args[0], v[1], args[2])
                return self.fallible(ip, st, fr, T('located', v[1]), node, ZERO, ('c', -100))
            if n == 'libkml_unzOpenCurrentFile':
                self.ev(st, 'open', args[0])
                return self.fallible(ip, st, fr, T('opened'), node, ZERO, ('c', -103))
            if n == 'libkml_unzGetCurrentFileInfo':
                k = sum(1 for e in st.trace if e[0] == 'next')
                out = []
                for x, b in ip.split(st, T('infook', ('c', k)), fr, node):
                    if b:
                        if args[1] != ZERO:
                            l = ip.deref_loc(args[1])
                            ip.store(x, ('m', ('p', l), 'unz_file_info_s::uncompressed_size'), U, fr, node)
                            x.mem[('finfo',)] = args[1]
                        self.ev(x, 'info', args[0], ('c', k), args[2], args[3])
                        if args[2] != ZERO:
                            self.fill(ip, x, fr, args[2], args[3], ('c', k), node)
                    out.append((x, ZERO if b else ('c', -104)))
                return out
            if n == 'libkml_unzGoToNextFile':
                k = sum(1 for e in st.trace if e[0] == 'next')
                self.ev(st, 'next', args[0])
                if k + 1 >= self.entries:
                    return [(st, ('c', -100))]
                return [(st, ZERO)]
            if n == 'libkml_unzReadCurrentFile':
                b = args[1]
                size = st.mem.get(('alloc', b))
                if size is None and b[0] == 'p' and b[1][0] == 'e' and b[1][2] == ZERO:
                    l = ip.deref_loc(b[1][1])
                    size = mk_size(ip.load(st, l))
                    ip.store(st, l, T('strn', T('bytes'), size), fr, node)
                st.mem[('cstr', b)] = T('bytes')
                self.ev(st, 'read', args[0], size, args[2])
                return [(st, T('nread'))]
            if n == 'libkml_unzClose':
                self.ev(st, 'close', args[0])
                return [(st, ZERO)]
            if n == 'zipOpenNewFileInZip':
                self.ev(st, 'zopen', args[0], v[1])
                return self.fallible(ip, st, fr, T('zopened'), node, ZERO, ('c', -1))
            if n == 'zipWriteInFileInZip':
                self.ev(st, 'zwrite', args[0], v[1], args[2])
                return self.fallible(ip, st, fr, T('zwritten'), node, ZERO, ('c', -1))
            if n == 'zipCloseFileInZip':
                self.ev(st, 'zclose', args[0])
                return self.fallible(ip, st, fr, T('zclosed'), node, ZERO, ('c', -1))
        return super().call(ip, st, fr, g, this, args, node)

    def fill(self, ip, st, fr, buf, size, k, node):
        pass

    def opaque(self, ip, st, fr, g, this, args, node):
        if g['n'] in ('new[]', 'delete'):
            self.ev(st, g['n'], args[0])
        return super().opaque(ip, st, fr, g, this, args, node)


def method(d, cls, name, np=None):
    r = [d.db.functions[m] for m in d.db.records[cls]['methods'] if d.db.functions[m]['n'] == name and 'body' in d.db.functions[m] and (np is None or len(d.db.functions[m]['params']) == np)]
    if len(r) != 1:
        raise AnalysisBroken('%s::%s: %d candidates' % (cls, name, len(r)))
    return r[0]


def fields(ip):
    fs = {}
    for fl in ip.all_fields(ZF):
        n = ip.ty(fl[1]['t']).get('n', '')
        k = ip.ty(fl[1]['t']).get('k')
        if 'vector<' in n:
            fs['toc'] = fl[0]
        elif 'MinizipFile' in n:
            fs['writer'] = fl[0]
        elif 'basic_string' in n or n.endswith('string'):
            fs['data'] = fl[0]
        elif k == 'int':
            fs['max'] = fl[0]
    if len(fs) != 4:
        raise AnalysisBroken('fields of ZipFile: %s' % sorted(fs))
    return fs


def zipobj(ip, st, ntoc, names=None):
    Z = obj(st, 'ZIP', ZF)
    fs = fields(ip)
    names = names or [T('name', ('c', i)) for i in range(ntoc)]
    st.mem[('m', Z, fs['toc'])] = ('vec', tuple(names))
    st.mem[('m', Z, fs['data'])] = DATA
    st.mem[('m', Z, fs['max'])] = T('maxsize')
    st.mem[('m', Z, fs['writer'])] = ZERO
    return Z, names, fs


def toc(chk, d):
    for fn in ('IsInToc', 'GetToc'):
        f = method(d, ZF, fn)
        for n in range(4):
            for null in ((0, 1) if fn != 'IsInToc' else (0,)):
                ip = EInterp(d.db, ZCl(d))
                st = State()
                Z, names, fs = zipobj(ip, st, n)
                o = ip.tmp(st, OUT if fn != 'GetToc' else ('vec', (T('old'),)))
                op = ZERO if null else ('p', o)
                arg = ('p', ip.tmp(st, P))
                rs = ip.run(f, Z, {'IsInToc': [arg], 'GetToc': [op]}[fn], st)

                def expect(q, s):
                    r = q(mk_nz(s.mem[('ret',)]))
                    if s.mem.get(('m', Z, fs['toc'])) != ('vec', tuple(names)):
                        return 'the table of contents is changed'
                    if null:
                        return 'succeeds without a place for the result' if r else None
                    v = s.mem[o]
                    if fn == 'GetToc':
                        if not r:
                            return 'fails'
                        return None if v in (('vec', tuple(names)), ('vec', (T('old'),) + tuple(names))) else 'the list is %s' % pp(v)
                    if fn == 'IsInToc':
                        want = any(q.eq(x, P) for x in names)
                        return None if r == want else 'answers %s' % ('yes for a path that is not listed' if r else 'no for a listed path')
                report(chk, 'Z1', '%s, %d entries%s' % (fn, n, ', no result' if null else ''), f, rs, expect)


def first(chk, d):
    f = method(d, ZF, 'FindFirstOf')
    A, B = W + '.kml', W + '2.kml'
    tocs = [(), (A,), (A, B), (B, A), (W + '.png',), (W + '.png', A), (W + '.png', W + '/' + B, A), (W + '.kmlx', A), ('kml', B), (W + '.kml.png',), ('.kml', A), ('', A), ('kml', 'l', 'ml')]
    for t in tocs:
        for null in (0, 1):
            ip = EInterp(d.db, ZCl(d))
            st = State()
            Z, names, fs = zipobj(ip, st, 0, [S(x) for x in t] or None)
            o = ip.tmp(st, OUT)
            rs = ip.run(f, Z, [('p', ip.tmp(st, S('.kml'))), ZERO if null else ('p', o)], st)

            def expect(q, s):
                r = q(mk_nz(s.mem[('ret',)]))
                v = s.mem[o]
                hit = [x for x in t if x.endswith('.kml')]
                if null or not hit:
                    return None if not r and v == OUT else 'finds a file although none has the extension or nobody asks'
                return None if r and v == S(hit[0]) else 'the first file with the extension is not the one found: %s' % pp(v)
            report(chk, 'Z1', 'FindFirstOf in %s%s' % (', '.join(t).replace(W, '*') or 'nothing', ', no result' if null else ''), f, rs, expect)


def entry(chk, d):
    f = method(d, ZF, 'GetEntry')
    for n in (0, 1, 2):
        for null in (0, 1):
            cl = ZCl(d)
            ip = EInterp(d.db, cl)
            st = State()
            Z, names, fs = zipobj(ip, st, n)
            o = ip.tmp(st, OUT)
            rs = ip.run(f, Z, [('p', ip.tmp(st, P)), ZERO if null else ('p', o)], st)

            def expect(q, s):
                r = q(mk_nz(s.mem[('ret',)]))
                tr = s.trace
                att = [e for e in tr if e[0] == 'attach']
                u = T('UNZ')
                opened = [i for i, e in enumerate(tr) if e[0] == 'attach'] and q(T('attachok'))
                closes = [i for i, e in enumerate(tr) if e[0] == 'close']
                if any(tr[i][1] != u for i in closes) or len(closes) != (1 if opened else 0):
                    return 'the archive handle is closed %d times (opened: %s)' % (len(closes), bool(opened))
                if opened and any(e[0] in ('locate', 'open', 'info', 'read') for e in tr[closes[0]:]):
                    return 'the archive is used after it is closed'
                news = [e[1] for e in tr if e[0] == 'new[]']
                dels = [e[1] for e in tr if e[0] == 'delete' and ('alloc', e[1]) in s.mem]
                if len(news) != len(dels) or len(set(dels)) != len(dels):
                    return 'a buffer is allocated %d times and freed %d times' % (len(news), len(dels))
                for e in tr:
                    if e[0] == 'mem' and (e[1] != DATA or e[2] != mk_size(DATA)):
                        return 'the archive data handed to the library is %s with size %s' % (pp(e[1]), pp(e[2]))
                    if e[0] == 'locate' and (e[1:3] != (u, P) or e[3] not in (ZERO, ONE)):
                        return 'another entry than the one asked for is located'
                    if e[0] == 'read':
                        size = e[2]
                        if size is None:
                            return 'read into something that is not a buffer of known size'
                        if size != e[3]:
                            return 'a buffer of %s is filled with %s bytes' % (pp(size), pp(e[3]))
                        if e[3] != U:
                            return '%s bytes are read' % pp(e[3])
                known = any(q.eq(x, P) for x in names)
                ok = known and q(T('membufok')) and q(T('attachok')) and q(T('located', P)) and q(T('opened')) and q(T('infook', ZERO))
                if ok:
                    if not q(mk_nz(U)):
                        # an empty entry may be refused
                        return None if s.mem[o] in (OUT, S('')) else 'an empty entry gives data'
                    ok = not q(mk_lt(T('maxsize'), U))
                if ok and not null:
                    ok = q.eq(T('nread'), U)
                if r != bool(ok):
                    return 'succeeds although the entry cannot be read in full' if r else 'fails although the entry is there and can be read'
                v = s.mem[o]
                if r and not null:
                    if v != T('strn', T('bytes'), U):
                        return 'the data returned is %s' % pp(v)
                elif v != OUT:
                    return 'the output is changed by a read that fails'
                return None
            report(chk, 'Z2', 'GetEntry, %d entries%s' % (n, ', no output' if null else ''), f, rs, expect)


def contents(chk, d):
    """opening an archive lists its entries"""
    fs = [g for g in (d.db.functions[m] for m in d.db.records[ZF]['methods']) if g['kind'] == 'ctor' and 'body' in g]
    ipx = EInterp(d.db, ZCl(d))
    fs = [g for g in fs if len(g['params']) == 1 and 'string' in ipx.ty(g['params'][0]['t']).get('s', '')]
    if len(fs) != 1:
        raise AnalysisBroken('reading constructor of ZipFile')
    f = fs[0]

    class CCl(ZCl):
        def fill(self, ip, st, fr, buf, size, k, node):
            n = array_size(ip, node, 2)
            if n is None or size[0] != 'c':
                raise AnalysisBroken('name buffer of unknown size')
            if size[1] > n:
                st.trace = st.trace + (('overrun', ('c', n), size),)
            last = ip.load(st, ('e', buf, ('c', n - 1))) if size[1] < n else None
            st.mem[('cstr', buf)] = T('name', k) if last == ZERO else T('name_without_end', k)
    for n in (1, 2, 3):
        cl = CCl(d)
        cl.entries = n
        ip = EInterp(d.db, cl)
        st = State()
        O = ip.new_obj(st, ZF)
        ff = fields(ip)
        rs = ip.run(f, O, [('p', ip.tmp(st, DATA))], st)

        def expect(q, s):
            tr = s.trace
            opened = any(e[0] == 'attach' for e in tr) and q(T('attachok'))
            closes = [i for i, e in enumerate(tr) if e[0] == 'close']
            if len(closes) != (1 if opened else 0) or any(tr[i][1] != T('UNZ') for i in closes):
                return 'the archive handle is closed %d times (opened: %s)' % (len(closes), bool(opened))
            if opened and len(tr) > closes[0] + 1:
                return 'the archive is used after it is closed'
            for e in tr:
                if e[0] == 'mem' and (e[1] != DATA or e[2] != mk_size(DATA)):
                    return 'the archive data handed to the library is %s with size %s' % (pp(e[1]), pp(e[2]))
                if e[0] == 'overrun':
                    return 'a name buffer of %s is offered as %s' % (pp(e[1]), pp(e[2]))
            if s.mem.get(('m', O, ff['data'])) != DATA:
                return 'the archive data is not kept'
            if s.mem.get(('m', O, ff['writer'])) != ZERO:
                return 'an archive opened for reading is writable'
            want = []
            if q(T('membufok')) and q(T('attachok')):
                want = [T('name', ('c', i)) for i in range(n) if q(T('infook', ('c', i)))]
            got = s.mem.get(('m', O, ff['toc']))
            if got[0] != 'vec':
                return 'the table of contents is %s' % pp(got)
            if any(x[1] == 'name_without_end' for x in got[1] if x[0] == 't'):
                return 'a name that fills its buffer is used without its end'
            return None if got == ('vec', tuple(want)) else 'the table of contents is %s instead of %s' % (pp(got), pp(tuple(want)))
        report(chk, 'Z3', 'table of contents of %d entries' % n, f, rs, expect)
    f = method(d, ZF, 'IsZipData')
    for x, want in [('', 0), ('P', 0), ('PK\x03', 0), ('PK\x03\x04', 1), ('PK\x03\x04' + W, 1), (W + 'PK\x03\x04', 0), ('PK\x05\x06', 0), ('pk\x03\x04' + W, 0)]:
        ip = EInterp(d.db, ZCl(d))
        st = State()
        rs = ip.run(f, None, [('p', ip.tmp(st, S(x)))], st)
        report(chk, 'Z3', 'IsZipData of %r' % x, f, rs, lambda q, s: None if q(mk_nz(s.mem[('ret',)])) == bool(want) else 'the signature is not recognised as it should')


def array_size(ip, node, i):
    """length of the array passed as argument i"""
    e = node['a'][i]
    while isinstance(e, dict):
        t = ip.ty(e['t']) if 't' in e else {}
        if t.get('k') == 'arr' and t.get('len'):
            return t['len']
        e = e.get('e') or e.get('s')
    return None


def add(chk, d):
    f = method(d, ZF, 'AddEntry')
    MZ = 'kmlbase::MinizipFile'
    mzf = None
    paths = [(W, 1), (W + '/' + W, 1), ('./' + W, 1), ('/' + W, 0), ('/', 0), ('\\' + W, 0), ('\\\\' + W, 0), ('../' + W, 0), ('..', 0), ('..\\' + W, 0)]
    for path, good in paths:
        for writer in (0, 1, 2):      # not for writing, closed handle, open handle
            cl = ZCl(d)
            ip = EInterp(d.db, cl)
            st = State()
            Z, names, fs = zipobj(ip, st, 0)
            if writer:
                M = obj(st, 'WRITER', MZ)
                hf = [fl[0] for fl in ip.all_fields(MZ)]
                if len(hf) != 1:
                    raise AnalysisBroken('fields of the writer')
                st.mem[('m', Z, fs['writer'])] = M
                H = T('HANDLE')
                st.mem[('m', M, hf[0])] = H if writer == 2 else ZERO
                if writer == 2:
                    st.assume(mk_nz(H), True)
            rs = ip.run(f, Z, [('p', ip.tmp(st, T('content'))), ('p', ip.tmp(st, S(path)))], st)

            def expect(q, s):
                r = q(mk_nz(s.mem[('ret',)]))
                tr = s.trace
                if not good or writer != 2:
                    if tr:
                        return 'an entry is started although the path is refused or nothing can be written'
                    return 'succeeds' if r else None
                H = T('HANDLE')
                ops = [e for e in tr if e[0] == 'zopen']
                if len(ops) > 1 or not ops or ops[0] != ('zopen', H, S(path)):
                    return 'the entry is not opened once under its path'
                for e in tr:
                    if e[0] == 'zwrite' and (e[1:3] != (H, T('content')) or e[3] not in (mk_size(T('content')), T('trunc', mk_size(T('content')), ('c', 32)))):
                        return 'what is written is not the content'
                ok = q(T('zopened')) and q(T('zwritten')) and q(T('zclosed'))
                if r and not ok:
                    return 'reports success although the entry was not written in full'
                if ok and not r:
                    return 'reports failure although the entry was written'
                if r and len([e for e in tr if e[0] == 'zwrite']) != 1:
                    return 'the content is not written once'
                if q(T('zopened')) and len([e for e in tr if e[0] == 'zclose']) != 1:
                    return 'an opened entry is not closed once'
                return None
            report(chk, 'Z4', 'AddEntry %s, %s' % (path.replace(W, '*'), ['not for writing', 'no handle', 'writable'][writer]), f, rs, expect)


class KCl(ZCl):
    """the ZipFile class and the file system under KmzFile"""
    def call(self, ip, st, fr, g, this, args, node):
        n, qn = g['n'], g['qn']
        if g.get('cls') == ZF or qn.startswith(ZF + '::'):
            v = self.vals(ip, st, g, args)
            if n == 'FindFirstOf':
                self.ev(st, 'find', v[0])
                out = []
                for x, b in ip.split(st, T('found', v[0]), fr, node):
                    if b and args[1] != ZERO:
                        ip.store(x, ip.deref_loc(args[1]), T('first', v[0]), fr, node)
                    out.append((x, ONE if b else ZERO))
                return out
            if n == 'GetEntry':
                out = []
                for x, b in ip.split(st, T('got', v[0]), fr, node):
                    if b and args[1] != ZERO:
                        ip.store(x, ip.deref_loc(args[1]), T('entry', v[0]), fr, node)
                    out.append((x, ONE if b else ZERO))
                return out
            if n == 'AddEntry':
                self.ev(st, 'add', this, v[0], v[1])
                return self.fallible(ip, st, fr, T('added', v[1]), node, ONE, ZERO)
            if n in ('Create', 'OpenFromString', 'OpenFromFile'):
                self.ev(st, n, v[0])
                return self.zipfile(ip, st, fr, n, node)
        if qn == 'kmlbase::File::ReadFileToString':
            v = self.vals(ip, st, g, args)
            self.ev(st, 'readfile', v[0])
            out = []
            for x, b in ip.split(st, T('readable', v[0]), fr, node):
                if b and args[1] != ZERO:
                    ip.store(x, ip.deref_loc(args[1]), T('file', v[0]), fr, node)
                out.append((x, ONE if b else ZERO))
            return out
        if qn == 'kmlbase::File::Exists':
            v = self.vals(ip, st, g, args)
            return self.fallible(ip, st, fr, T('exists', v[0]), node, ONE, ZERO)
        if qn == 'kmlengine::NormalizeHref':
            v = self.vals(ip, st, g, args)
            if v[0][0] != 's' or not v[0][1]:
                return [(st, ZERO)]
            out = []
            for x, b in ip.split(st, T('normalizes', v[0]), fr, node):
                if b:
                    ip.store(x, ip.deref_loc(args[1]), S(posixpath.normpath(v[0][1])), fr, node)
                out.append((x, ONE if b else ZERO))
            return out
        if qn.startswith('kmldom::Serialize') and len(args) == 1:
            return [(st, T('text', models.valarg(ip, st, g, 0, args)))]
        if qn == 'kmlengine::GetRelativeLinks':
            v = self.vals(ip, st, g, args)
            self.ev(st, 'links', v[0])
            out = []
            for x, b in ip.split(st, T('haslinks'), fr, node):
                if b:
                    ip.store(x, ip.deref_loc(args[1]), ('vec', (S(W + '.png'),)), fr, node)
                out.append((x, ONE if b else ZERO))
            return out
        if qn == 'kmlengine::KmlFile::CreateFromStringWithUrl':
            v = self.vals(ip, st, g, args)
            self.ev(st, 'parse', v[0], v[1])
            out = []
            K = T('OBJ', 'KMLFILE')
            for x, b in ip.split(st, T('parses'), fr, node):
                if b:
                    x.cls[K] = 'kmlengine::KmlFile'
                    x.assume(mk_nz(K), True)
                out.append((x, K if b else ZERO))
            return out
        if this == T('OBJ', 'KMLFILE') or this == ZERO:
            if this == ZERO:
                self.ev(st, 'null', g['qn'])
            if n in ('get_root', 'get_url'):
                v = T(n)
                return [(st, ('p', ip.tmp(st, v)) if ip.ty(g['ret']).get('ref') else v)]
        return super().call(ip, st, fr, g, this, args, node)

    def zipfile(self, ip, st, fr, n, node):
        out = []
        for x, b in ip.split(st, T('zip' + n), fr, node):
            Z = T('OBJ', 'ZIP')
            if b:
                x.cls[Z] = ZF
                x.assume(mk_nz(Z), True)
            out.append((x, Z if b else ZERO))
        return out


def kmzobj(ip, st):
    K, Z = obj(st, 'KMZ', KZ), obj(st, 'ZIP', ZF)
    fs = [fl[0] for fl in ip.all_fields(KZ) if ZF in ip.ty(fl[1]['t']).get('n', '')]
    if len(fs) != 1:
        raise AnalysisBroken('archive of KmzFile')
    st.mem[('m', K, fs[0])] = Z
    return K, Z


def kmz(chk, d):
    for fn in ('ReadKmlAndGetPath', 'ReadKml', 'ReadFile'):
        f = method(d, KZ, fn)
        for null in (0, 1):
            for nn in ((0, 1) if fn == 'ReadKmlAndGetPath' else (0,)):
                cl = KCl(d)
                ip = EInterp(d.db, cl)
                st = State()
                K, Z = kmzobj(ip, st)
                o, nm = ip.tmp(st, OUT), ip.tmp(st, T('name0'))
                op, np = ZERO if null else ('p', o), ZERO if nn else ('p', nm)
                args = {'ReadKmlAndGetPath': [op, np], 'ReadKml': [op], 'ReadFile': [P, op]}[fn]
                rs = ip.run(f, K, args, st)

                def expect(q, s):
                    r = q(mk_nz(s.mem[('ret',)]))
                    if fn == 'ReadFile':
                        ok = q(T('got', P))
                        if r != ok:
                            return 'succeeds without the entry' if r else 'fails although the entry is there'
                        return None if s.mem[o] == (T('entry', P) if ok and not null else OUT) else 'the content is not that of the entry asked for'
                    if null:
                        return 'succeeds without output' if r else None
                    e = S('.kml')
                    ok = q(T('found', e)) and q(T('got', T('first', e)))
                    if r != ok:
                        return 'succeeds without a KML file' if r else 'fails although there is a KML file'
                    if s.mem[o] != (T('entry', T('first', e)) if ok else OUT):
                        return 'the content is not that of the first KML file'
                    if fn == 'ReadKmlAndGetPath' and not nn and not ok and s.mem[nm] != T('name0'):
                        return 'the name is changed by a read that fails'
                    if fn == 'ReadKmlAndGetPath' and not nn and ok and s.mem[nm] != T('first', e):
                        return 'the name is not that of the first KML file'
                    return None
                report(chk, 'Z5', '%s%s%s' % (fn, ', no output' if null else '', ', no name' if nn else ''), f, rs, expect)
    for fn in ('OpenFromFile', 'OpenFromString', 'Create'):
        f = method(d, KZ, fn)
        cl = KCl(d)
        ip = EInterp(d.db, cl)
        st = State()
        rs = ip.run(f, None, [('p', ip.tmp(st, P)) if fn == 'OpenFromString' else P], st)

        def expect(q, s):
            v = s.mem[('ret',)]
            ok = q(T('zip' + fn))
            if [e for e in s.trace if e[0] == fn] != [(fn, P)]:
                return 'the archive is not opened once with what was given'
            if not ok:
                return None if v == ZERO else 'an archive that cannot be opened gives an object'
            if s.cls.get(v) != KZ:
                return 'no KmzFile is returned for an archive that opens'
            return None if T('OBJ', 'ZIP') in [x for k, x in s.mem.items() if k[0] == 'm' and k[1] == v] else 'the KmzFile does not hold the archive'
        report(chk, 'Z5', fn, f, rs, expect)


def filelist(chk, d):
    f = method(d, KZ, 'AddFileList')
    A, B = W + 'a.png', W + '/b.png'
    lists = [[], [A], [A, B], [A, A], [A + '#x', A], [A, './' + A, B], ['../' + A], [W + '/../../' + A, B], ['x/../' + A, A], ['#f', A], [B, '../' + B, B + '#z'], ['..', A]]
    for base in (W + 'base', W + 'base/', ''):
        for l in lists:
            cl = KCl(d)
            ip = EInterp(d.db, cl)
            st = State()
            K, Z = kmzobj(ip, st)
            rs = ip.run(f, K, [('p', ip.tmp(st, S(base))), ('p', ip.tmp(st, ('vec', tuple(S(x) for x in l))))], st)

            def expect(q, s):
                errs, want, seen = 0, [], set()
                for x in l:
                    p = x.partition('#')[0]
                    if not p or not q(T('normalizes', S(p))):
                        errs += 1
                        continue
                    nrm = posixpath.normpath(p)
                    if nrm.startswith('..'):
                        errs += 1
                        continue
                    if nrm in seen:
                        continue
                    seen.add(nrm)
                    full = S(nrm if not base else base.rstrip('/') + '/' + nrm)
                    want.append(('readfile', full))
                    if not q(T('readable', full)):
                        errs += 1
                        continue
                    want.append(('add', Z, T('file', full), S(nrm)))
                    if not q(T('added', S(nrm))):
                        errs += 1
                got = [e for e in s.trace if e[0] in ('readfile', 'add')]
                if got != want:
                    return 'files read and added: %s instead of %s' % (pp(tuple(got))[:200].replace(W, '*'), pp(tuple(want))[:200].replace(W, '*'))
                return None if s.mem[('ret',)] == ('c', errs) else 'the number of errors is %s instead of %d' % (pp(s.mem[('ret',)]), errs)
            report(chk, 'Z6', 'AddFileList %s under %s' % (', '.join(l).replace(W, '*') or 'nothing', base.replace(W, '*') or 'nothing'), f, rs, expect)


def create(chk, d):
    Z = T('OBJ', 'ZIP')

    def dockml(tr):
        a = [e for e in tr if e[0] == 'add']
        return a[0] if a else None
    for fn in ('WriteKmz', 'CreateFromElement', 'CreateFromKmlFile', 'CreateFromKmlFilepath'):
        f = method(d, KZ, fn)
        for target in (W + '.kmz', ''):
            for src in ((W + '/' + W + '.kml', '') if fn == 'CreateFromKmlFilepath' else (0, 1) if fn == 'CreateFromKmlFile' else (0,)):
                cl = KCl(d)
                ip = EInterp(d.db, cl)
                st = State()
                TP = ('p', ip.tmp(st, S(target)))
                E = obj(st, 'ELEM', ELEM)
                K = obj(st, 'KMLFILE', 'kmlengine::KmlFile')
                if fn == 'WriteKmz':
                    if not target:
                        continue
                    args = [S(target), ('p', ip.tmp(st, T('kml')))]
                elif fn == 'CreateFromElement':
                    args = [('p', ip.tmp(st, E)), ('p', ip.tmp(st, S(W + 'base'))), TP]
                elif fn == 'CreateFromKmlFile':
                    args = [('p', ip.tmp(st, ZERO if src else K)), TP]
                else:
                    args = [('p', ip.tmp(st, S(src))), TP]
                rs = ip.run(f, None, args, st)

                def expect(q, s):
                    r = q(mk_nz(s.mem[('ret',)]))
                    tr = s.trace
                    if any(e[0] == 'null' for e in tr):
                        return 'a document that does not exist is used'
                    want = bool(target)
                    text = T('kml') if fn == 'WriteKmz' else T('text', E if fn == 'CreateFromElement' else T('get_root'))
                    if fn == 'CreateFromKmlFilepath':
                        want = want and bool(src) and q(T('readable', S(src))) and q(T('parses'))
                        for e in tr:
                            if e[0] == 'parse' and e[1] != T('file', S(src)):
                                return 'the document parsed is not the file'
                    if fn == 'CreateFromKmlFile' and src:
                        want = False
                    if want:
                        want = q(T('zipCreate'))
                    adds = [e for e in tr if e[0] == 'add']
                    if not want:
                        if adds:
                            return 'something is written although no archive can be made'
                        return 'succeeds although no archive can be made' if r else None
                    if not adds or adds[0][1:3] != (Z, text) or not (adds[0][3][0] == 's' and adds[0][3][1].endswith('.kml')):
                        return 'the document is not the first KML file stored'
                    if any(e[3][0] == 's' and e[3][1].endswith('.kml') for e in adds[1:]):
                        return 'another KML file is stored'
                    if not q(T('added', adds[0][3])):
                        return 'succeeds although the document was not stored' if r else None
                    if fn != 'WriteKmz':
                        if [e for e in tr if e[0] == 'links'] != [('links', text)]:
                            return 'the references of the document are not collected once'
                        base = {'CreateFromElement': S(W + 'base')}.get(fn)
                        if q(T('haslinks')):
                            reads = [e for e in tr if e[0] == 'readfile' and e[1] != S(src)]
                            if q(T('normalizes', S(W + '.png'))) and len(reads) != 1:
                                return 'a referenced file is not read'
                            if base is not None and reads and reads != [('readfile', S(W + 'base/' + W + '.png'))]:
                                return 'a referenced file is looked for elsewhere'
                            for e in reads:
                                if q(T('readable', e[1])) and ('add', Z, T('file', e[1]), S(W + '.png')) not in adds:
                                    return 'a referenced file is not stored'
                    if not r and q(T('exists', S(target))):
                        return 'fails although the archive was written'
                    return None
                report(chk, 'Z7', '%s%s%s' % (fn, '' if target else ', no target', {'': ', no source', 1: ', no document'}.get(src, '')), f, rs, expect)


class OCl(ZCl):
    """files exist or not, and are read or not"""
    def call(self, ip, st, fr, g, this, args, node):
        qn = g['qn']
        if qn in ('kmlbase::File::Exists', 'kmlbase::File::ReadFileToString', ZF + '::IsZipData', ZF + '::OpenFromString', 'zipOpen', 'libkml_zipOpen') and this is None and qn not in self.real:
            v = models.valarg(ip, st, g, 0, args)
            st.trace = st.trace + ((g['n'], v),)
            if g['n'] in ('zipOpen', 'libkml_zipOpen'):
                st.assume(mk_nz(T('zipfile', v)), True)
                return [(x, T('zipfile', v) if b else ZERO) for x, b in ip.split(st, T('opens', v), fr, node)]
            if g['n'] == 'OpenFromString':
                return [(x, T('OBJ', 'ZIP') if b else ZERO) for x, b in ip.split(st, T('zip', v), fr, node)]
            out = []
            for x, b in ip.split(st, T(g['n'], v), fr, node):
                if b and g['n'] == 'ReadFileToString':
                    ip.store(x, ip.deref_loc(args[1]), T('content', v), fr, node)
                out.append((x, ONE if b else ZERO))
            return out
        if qn == ZF + '::ZipFile' and g['kind'] == 'ctor':
            st.trace = st.trace + (('ZipFile', models.valarg(ip, st, g, 0, args)),)
            return [(st, VOID)]
        return super().call(ip, st, fr, g, this, args, node)
    real = ()


def opening(chk, d):
    f = method(d, ZF, 'OpenFromFile')
    ip = EInterp(d.db, OCl(d))
    st = State()
    st.assume(mk_nz(P), True)
    obj(st, 'ZIP', ZF)
    rs = ip.run(f, None, [P], st)

    def expect(q, s):
        v = s.mem[('ret',)]
        reads = [e for e in s.trace if e[0] == 'ReadFileToString']
        ex = [e for e in s.trace if e[0] == 'Exists']
        if ex and not q(T('Exists', P)):
            return None if v == ZERO else 'a file that is not there gives an archive'
        if not q(T('ReadFileToString', P)):
            return None if v == ZERO else 'a file that cannot be read gives an archive'
        if [e for e in s.trace if e[0] == 'OpenFromString'] != [('OpenFromString', T('content', P))]:
            return 'the content of the file is not what is opened'
        return None if v == (T('OBJ', 'ZIP') if q(T('zip', T('content', P))) else ZERO) else 'gives %s' % pp(v)
    report(chk, 'Z8', 'opening a file', f, rs, expect)

    f = method(d, ZF, 'OpenFromString')
    cl = OCl(d)
    cl.real = (ZF + '::OpenFromString',)
    ip = EInterp(d.db, cl)
    st = State()
    rs = ip.run(f, None, [('p', ip.tmp(st, P))], st)

    def expect(q, s):
        v = s.mem[('ret',)]
        if not q(T('IsZipData', P)):
            return None if v == ZERO else 'other data gives an archive'
        return None if s.cls.get(v) == ZF and ('ZipFile', P) in s.trace else 'an archive is not opened from the data given'
    report(chk, 'Z8', 'opening data', f, rs, expect)

    f = method(d, ZF, 'Create')
    ip = EInterp(d.db, OCl(d))
    st = State()
    st.assume(mk_nz(P), True)
    rs = ip.run(f, None, [P], st)

    def expect(q, s):
        v = s.mem[('ret',)]
        op = [e for e in s.trace if e[0].endswith('zipOpen')]
        if [e[1] for e in op] != [P]:
            return 'the file is not opened once'
        if not q(T('opens', P)):
            return None if v == ZERO else 'a file that cannot be made gives an archive'
        return None if s.cls.get(v) == ZF else 'gives no archive'
    report(chk, 'Z8', 'making a file', f, rs, expect)

    f = method(d, KZ, 'IsKmz')
    ip = EInterp(d.db, OCl(d))
    st = State()
    rs = ip.run(f, None, [('p', ip.tmp(st, P))], st)
    report(chk, 'Z8', 'recognising an archive', f, rs, lambda q, s: None if q(mk_nz(s.mem[('ret',)])) == q(T('IsZipData', P)) else 'is decided by something else')

    # the archive of a KmzFile answers for it
    for nul in (False, True):
        f = method(d, KZ, 'SaveToString')
        ip = EInterp(d.db, OCl(d))
        st = State()
        K, Z = kmzobj(ip, st)
        o = ip.tmp(st, T('old'))
        x0, data = single(ip.run(method(d, ZF, 'get_data', 0), Z, [], st.copy()), 'get_data')
        if data[0] == 'p':
            data = ip.load(x0, data[1])
        rs = ip.run(f, K, [ZERO if nul else ('p', o)], st)

        def expect(q, s):
            if q(mk_nz(s.mem[('ret',)])) == nul:
                return 'says the opposite'
            return None if s.mem[o] == (T('old') if nul else data) else 'gives %s' % pp(s.mem[o])
        report(chk, 'Z8', 'the bytes of an archive%s' % (', no output' if nul else ''), f, rs, expect)
    ip = EInterp(d.db, OCl(d))
    st = State()
    K, Z = kmzobj(ip, st)
    s1, _ = single(ip.run(method(d, KZ, 'set_max_uncompressed_file_size', 1), K, [('c', 12345)], st), 'set_max')
    for who, cls in ((K, KZ), (Z, ZF)):
        f = method(d, cls, 'get_max_uncompressed_file_size', 0)
        report(chk, 'Z8', 'the limit of %s' % cls.split('::')[1], f, ip.run(f, who, [], s1.copy()), lambda q, s: None if s.mem[('ret',)] == ('c', 12345) else 'is %s' % pp(s.mem[('ret',)]))
    f = method(d, KZ, 'List', 1)
    ip = EInterp(d.db, OCl(d))

    class L(OCl):
        def call(self, ip, st, fr, g, this, args, node):
            if g['qn'] == ZF + '::GetToc':
                st.trace = st.trace + (('toc', this, args[0]),)
                return [(st, T('tocresult'))]
            return super().call(ip, st, fr, g, this, args, node)
    ip = EInterp(d.db, L(d))
    st = State()
    K, Z = kmzobj(ip, st)
    rs = ip.run(f, K, [T('list')], st)
    report(chk, 'Z8', 'the files of an archive', f, rs, lambda q, s: None if s.trace == (('toc', Z, T('list')),) and s.mem[('ret',)] == T('tocresult') else 'are not those of its table of contents')

class MCl(ZCl):
    """memory given out by the allocator and copies out of the archive"""
    def call(self, ip, st, fr, g, this, args, node):
        if g['n'] == 'malloc':
            return [(st, T('H'))]
        if g['n'] in ('memcpy', 'memmove') and 'body' not in g:
            self.ev(st, 'copy', args[0], args[1], args[2])
            return [(st, args[0])]
        if g['n'] == 'free':
            self.ev(st, 'free', args[0])
            return [(st, None)]
        return EngClient.call(self, ip, st, fr, g, this, args, node)


def offset_of(p):
    """how far into the archive a pointer is"""
    if p == T('BUF'):
        return 0
    if p[0] == 't' and p[1] == '+' and len(p) == 4:
        a, b = (p[2], p[3]) if p[3][0] == 'c' else (p[3], p[2])
        o = offset_of(a) if b[0] == 'c' else None
        return None if o is None else o + b[1]
    return None


def memory(chk, d):
    """the bytes of an archive held in memory are read in place: no further than its end, from where the reader is"""
    create = [f for f in d.db.functions.values() if f['n'] == 'mem_simple_create_file' and 'body' in f]
    if len(create) != 1:
        raise AnalysisBroken('the memory stream is not there')
    create = create[0]
    big = (2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 40)
    plans = []
    for size in (0, 1, 100):
        for at in (0, 1, 50, 99, 100, 101, 1000):
            for n in (0, 1, 49, 50, 51, 99, 100, 101, 65536) + (big if at in (0, 50, 100) else ()):
                plans.append((size, (('set', at), ('read', n), ('tell',))))
    for size in (0, 1, 100):
        plans += [(size, (('end', 0), ('tell',), ('read', 4))),
                  (size, (('read', 4), ('read', 4), ('tell',), ('set', 0), ('read', size), ('read', 1))),
                  (size, (('set', 2 ** 63), ('read', 5))), (size, (('set', 2 ** 64 - 1), ('read', 5))),
                  (size, (('set', 2 ** 63 - 1), ('read', 5)))]
    plans += [(100, (('set', 40), ('cur', 10), ('tell',), ('read', 60))), (100, (('set', 40), ('cur', 60), ('tell',), ('read', 60))),
              (100, (('read', 30), ('cur', 5), ('read', 10), ('tell',)))]
    ops = {'set': 'zseek_file', 'cur': 'zseek_file', 'end': 'zseek_file', 'read': 'zread_file', 'tell': 'ztell_file'}
    origin = {'set': 0, 'cur': 1, 'end': 2}
    for size, plan in plans:
        ip = EInterp(d.db, MCl(d))
        st = State()
        A = obj(st, 'API', 'zlib_filefunc_def_s')
        states, h = [], None
        for s, v in ip.run(create, None, [A, T('BUF'), ('c', size)], st):
            states.append((s, ()))
            h = v
        for op in plan:
            nxt = []
            for s, got in states:
                fn = s.mem.get(('m', A, 'zlib_filefunc_def_s::' + ops[op[0]]))
                f = d.db.functions.get(fn[1]) if fn and fn[0] == 'f' else None
                if f is None:
                    raise AnalysisBroken('the memory stream has no %s' % op[0])
                out = T('into', ('c', len(got)))
                args = [ZERO, h] + ([('c', op[1]), ('c', origin[op[0]])] if op[0] in origin else [out, ('c', op[1])] if op[0] == 'read' else [])
                k = len(s.trace)
                for z, v in ip.run(f, None, args, s):
                    nxt.append((z, got + ((v, tuple(e for e in z.trace[k:] if e[0] == 'copy')),)))
            states = nxt
        want, at = [], 0
        for op in plan:
            if op[0] == 'set':
                at = op[1]
                want.append(None)
            elif op[0] == 'cur':
                at += op[1]
                want.append(None)
            elif op[0] == 'end':
                at = size
                want.append(None)
            elif op[0] == 'tell':
                want.append(at)
            else:
                n = min(op[1], max(0, size - at))
                want.append((n, at))
                at += n
        text = 'an archive of %d bytes: %s' % (size, ', '.join(' '.join(map(str, o)) for o in plan))
        bad = None
        for s, got in states:
            for i, (op, w) in enumerate(zip(plan, want)):
                r, cp = got[i]
                if r[0] != 'c':
                    bad = bad or 'unknown'
                elif w is None:
                    if r[1] != 0 and 0 <= plan[i][1] <= size:
                        bad = 'moving to a place in the archive fails'
                elif op[0] == 'tell':
                    if r[1] != w and w <= size:
                        bad = 'the place is %s instead of %s' % (r[1], w)
                else:
                    n = 0
                    for e in cp:
                        off = offset_of(e[2])
                        m = e[3][1] if e[3][0] == 'c' else None
                        if m is None or off is None:
                            bad = bad or 'unknown'
                            continue
                        if m == 0:
                            continue
                        if off < 0 or m < 0 or off + m > size:
                            bad = 'bytes %s to %s are read' % (off, off + m)
                        elif off != w[1]:
                            bad = bad or 'the bytes read are those at %s instead of %s' % (off, w[1])
                        n += m
                    if (n, r[1]) != (w[0], w[0]):
                        bad = bad or '%s bytes are read and %s reported instead of %s' % (n, r[1], w[0])
        if bad == 'unknown' or not states:
            chk.unk('Z9', text, 'not followed')
        elif bad:
            chk.bad('Z9', text, where(create), bad)
        else:
            chk.ok('Z9', text)


def run(chk, db):
    d = Dom(db)
    d.classes()
    chk.rule('Z1', 'the table of contents answers for exactly the entries listed: first match by extension in order, membership, and the full list')
    chk.rule('Z2', 'reading an entry succeeds iff it is listed, located by its own name, opened, not above the size limit and read in full; the buffer holds what is read, everything is released once, and a failed read changes nothing')
    chk.rule('Z3', 'opening an archive lists the name of every entry whose record can be read, in order, terminated, and closes what it opened')
    chk.rule('Z4', 'an entry is added only to a writable archive, under a path that is neither absolute nor leads upwards, and success means opened, written and closed')
    chk.rule('Z5', 'the KML of an archive is the first file with the extension; its content and name come from that entry; opening fails iff the archive cannot be opened')
    chk.rule('Z6', 'each distinct normalised relative path below the base is read from there and stored under it once; everything else counts as an error')
    chk.rule('Z8', 'opening reads exactly the file or data given and fails iff that is no archive; the limit, the list and the bytes are those of the archive')
    chk.rule('Z9', 'reading an archive held in memory yields the bytes at the place reached, as many as asked for and there are, never one outside, and moves on by as many')
    chk.rule('Z7', 'creating an archive stores the document first and reports success only if that worked')
    for g in (toc, first, entry, contents, add, kmz, filelist, create, opening, memory):
        guard(chk, g.__name__, g, chk, d)
    return {}
