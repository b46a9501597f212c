"""Import of comma-separated and GPX data: columns, lines, placemarks, track points."""
from eng import *
from build import *
import harness, itertools, re
from harness import guard
from ids import getter
from kmz import S, method
from values import TCl, fns, NUM
import values
from absint import ptr_index
from builders import path, tuples

WS = ' \t\r\n\f\v'


class ICl(TCl):
    """allocated character buffers with known content"""
    events = {}

    def buffer(self, ip, st, n):
        k = st.mem.get(('bufs',), ZERO)[1] + 1
        st.mem[('bufs',)] = ('c', k)
        b = ('p', ('v', 'BUF', k))
        st.mem[('bufsize', b)] = n
        return ('p', ('e', b, ZERO))

    def text_at(self, ip, st, p):
        t = super().text_at(ip, st, p)
        return t if t is not None else models.buf_text(st, p)

    def bad(self, st, what):
        st.trace = st.trace + (('overflow', S(what)),)

    def bounds(self, st, loc, what):
        if loc[0] == 'e' and len(loc) == 3 and ('bufsize', loc[1]) in st.mem:
            n = st.mem[('bufsize', loc[1])]
            if n[0] == 'c' and loc[2][0] == 'c' and not 0 <= loc[2][1] < n[1]:
                self.bad(st, 'a character outside the buffer is %s' % what)

    def load(self, ip, st, fr, loc, node):
        self.bounds(st, loc, 'read')
        return super().load(ip, st, fr, loc, node)

    def store(self, ip, st, fr, loc, val, node):
        self.bounds(st, loc, 'written')
        return super().store(ip, st, fr, loc, val, node)

    def opaque(self, ip, st, fr, g, this, args, node):
        if g['n'] == 'new[]' and args and args[0][0] == 'c':
            return [(st, self.buffer(ip, st, args[0]))]
        return super().opaque(ip, st, fr, g, this, args, node)

    def call(self, ip, st, fr, g, this, args, node):
        qn = g['qn']
        base = qn.split('<')[0].split('::')[-1]
        h = self.events.get(qn.split('(')[0])
        if h:
            return h(ip, st, fr, g, this, args, node)
        if qn == 'kmlbase::StringToDouble' and len(args) == 2:    # decided by C19
            v = models.valarg(ip, st, g, 0, args)
            v = ip.load(st, v[1]) if v[0] == 'p' else v
            if v[0] == 's':
                if not re.match(r'-?\.?[0-9]', v[1]):
                    return [(st, ZERO)]
                if args[1] != ZERO:
                    ip.store(st, ip.deref_loc(args[1]), T('num', S('double'), S(NUM.match(v[1]).group(0)), T('classic')), fr, node)
                return [(st, ONE)]
        if base == 'malloc' and args:
            return [(st, self.buffer(ip, st, args[0]))]
        if base in ('calloc', 'realloc') and len(args) == 2 and args[0][0] == 'c' and args[1][0] == 'c' and base == 'calloc':
            p = self.buffer(ip, st, ('c', args[0][1] * args[1][1]))
            for i in range(args[0][1] * args[1][1]):
                st.mem[('e', p[1][1], ('c', i))] = ZERO
            return [(st, p)]
        if base == 'free' and len(args) == 1:
            return [(st, VOID)]
        if base in ('memcpy', 'memmove', 'strcpy', 'strncpy') and args and args[0][0] == 'p' and args[0][1][0] == 'e' and ('bufsize', args[0][1][1]) in st.mem:
            b, i = args[0][1][1], args[0][1][2]
            s = self.text_at(ip, st, args[1])
            if s is not None and i[0] == 'c' and (base == 'strcpy' or args[2][0] == 'c'):
                n = len(s) + 1 if base == 'strcpy' else args[2][1]
                if base == 'memcpy' and n > len(s) + 1:
                    self.bad(st, 'more is copied than there is')
                cs = (s + '\0' * (n - len(s)))[:n]
                for k, c in enumerate(cs):
                    ip.store(st, ('e', b, ('c', i[1] + k)), ('c', ord(c) if ord(c) < 128 else ord(c) - 256), fr, node)
                return [(st, args[0])]
        if base == 'strlen' and args:
            t = self.text_at(ip, st, args[0])
            if t is not None:
                return [(st, ('c', len(t)))]
        if base in ('strncasecmp', 'strcasecmp', 'memcmp') and args:
            a, b = self.text_at(ip, st, args[0]), self.text_at(ip, st, args[1])
            if a is not None and b is not None and (base == 'strcasecmp' or args[2][0] == 'c'):
                if base != 'strcasecmp':
                    n = args[2][1]
                    if n > len(a) + 1 and n > len(b) + 1 and base == 'memcmp':
                        self.bad(st, 'more is compared than there is')
                    a, b = a[:n], b[:n]
                if base != 'memcmp':
                    a, b = a.lower(), b.lower()
                return [(st, ('c', (a > b) - (a < b)))]
        if 'basic_string' in qn and g['n'] == 'basic_string' and len(args) >= 2 and args[0][0] == 'p' and args[0][1][0] == 'e' and ('bufsize', args[0][1][1]) in st.mem:
            a, b = args[0], args[1]
            n = b[1] if b[0] == 'c' else ptr_index(b)[1][1] - a[1][2][1] if b[0] == 'p' and ptr_index(b)[0] == a[1][1] and ptr_index(b)[1][0] == 'c' else None
            t = models.buf_text(st, a, n) if n is not None and n >= 0 else None
            if t is not None:
                return [(st, S(t))]
        return super().call(ip, st, fr, g, this, args, node)


def report(chk, rule, key, f, rs, expect, ip):
    values.report(chk, rule, key, f, rs, expect, ip)


def columns(s, delim):
    """the columns of a line, or None where the line is not well formed"""
    out = []
    i, n = 0, len(s)
    if not n:
        return out
    while True:
        while i < n and s[i] in WS and s[i] != delim:
            i += 1
        if delim == ',' and i < n and s[i] == '"':
            i += 1
            v = ''
            while True:
                if i >= n:
                    return None
                if s[i] == '"':
                    if s[i + 1:i + 2] == '"':
                        v += '"'
                        i += 2
                        continue
                    i += 1
                    break
                v += s[i]
                i += 1
            j = s.find(delim, i)
            rest = s[i:] if j < 0 else s[i:j]
            if rest.strip(WS):
                return None
            out.append(v)
        else:
            j = s.find(delim, i)
            v = s[i:] if j < 0 else s[i:j]
            if delim in WS:
                v = v.rstrip(''.join(c for c in WS if c != delim))
            else:
                v = v.rstrip(WS)
            out.append(v)
        if j < 0:
            return out
        i = j + 1


def strs(v):
    return [x[1] for x in v[1]] if v[0] == 'vec' and all(x[0] == 's' for x in v[1]) else None


def splitting(chk, d):
    f = fns(d, 'kmlbase::SplitQuotedUsing')[0]
    fs = fns(d, 'kmlbase::SplitQuotedUsingFromString')[0]
    items = [(t, ',') for n in range(8 if chk.tier == 'thorough' else 6) for t in map(''.join, itertools.product('a," ', repeat=n))]
    items += [(t, dl) for dl in '|\t;' for n in range(5) for t in map(''.join, itertools.product('a"' + dl + ' ', repeat=n))]
    items += [(t, ',') for t in ('"The ""big"" cheese."', '"White Bear Lake, MN, USA",-93.0,45.0', 'a,\t"b,""c""",  d e  ,', '"a""",""""', '"",""', '"x"\t ,\ty\t', 'caf\xe9,"\xff"', 'a\n,"b\nc"', '#c,1,2')]

    def one(c, it):
        text, dl = it
        ip = EInterp(d.db, ICl())
        st = State()
        out = ip.tmp(st, ('vec', (S('old'),)))
        if len(text) % 2:
            rs = ip.run(fs, None, [('p', ip.tmp(st, S(text))), ('c', ord(dl)), ('p', out)], st)
        else:
            rs = ip.run(f, None, [S(text), ('c', len(text)), ('c', ord(dl)), ('p', out)], st)
        want = columns(text, dl)

        def expect(q, s):
            got = strs(ip.load(s, out))
            if got is None:
                return None if want is None else 'the columns are unknown'
            if got[:1] != ['old']:
                return 'columns found before are lost'
            return None if want is None or got[1:] == want else 'the columns are %s instead of %s' % (got[1:], want)
        report(c, 'I1', 'columns of %r at %r' % (text, dl), f, rs, expect, ip)
    harness.parallel(chk, items, one)
    ip = EInterp(d.db, ICl())
    st = State()
    out = ip.tmp(st, ('vec', ()))
    report(chk, 'I1', 'columns of no text', f, ip.run(f, None, [ZERO, ZERO, ('c', 44), ('p', out)], st), lambda q, s: None if ip.load(s, out) == ('vec', ()) else 'there are columns', ip)


def lines(chk, d):
    CS = 'kmlbase::CsvSplitter'
    cf = ctor(d, CS, 1)
    f = method(d, CS, 'SplitCurrentLine')
    items = [t for n in range(6) for t in map(''.join, itertools.product('a,\r\n', repeat=n))] + ['a,b\r\nc,d\r\n', 'h\n\n\n"x\ty",1\n\n', 'a\n  \nb']

    def one(c, text):
        ip = EInterp(d.db, ICl())
        st = State()
        o = obj(st, 'CS', CS)
        st.mem[('exact', o)] = ONE
        st = single(ip.run(cf, o, [('p', ip.tmp(st, S(text)))], st), 'CsvSplitter')[0]
        ls = text.replace('\r', '\n').split('\n')
        want = [columns(ls[0], ',')] + [columns(x, ',') for x in ls[1:] if x]
        xs = [(st, (), ())]
        for i in range(len(want) + 2):
            ys = []
            for s, cols, rets in xs:
                out = ip.tmp(s, ('vec', ()))
                for s2, r in ip.run(f, o, [('p', out)], s):
                    ys.append((s2, cols + (out,), rets + (r,)))
            xs = ys
        for s, cols, rets in xs:
            s.mem[('cols',)], s.mem[('rets',)] = cols, rets

        def expect(q, s):
            rets = [q(mk_nz(r)) for r in s.mem[('rets',)]]
            if rets != [True] * len(want) + [False] * 2:
                return '%d lines are found instead of %d' % (sum(rets), len(want))
            got = [strs(ip.load(s, x)) for x in s.mem[('cols',)]]
            return None if got == want + [[], []] else 'the lines are %s instead of %s' % (got, want)
        report(c, 'I1', 'lines of %r' % text, f, [(s, ONE) for s, _, _ in xs], expect, ip)
    harness.parallel(chk, items, one)


PREFIX = {'feature-id': 'feature-', 'style-id': 'style-'}


def placemarks(chk, d):
    f = method(d, 'kmlconvenience::CsvParser', 'ParseCsv', 2)
    ST = dict((n, v) for n, v in [e for q, e in d.db.enums.items() if q.endswith('CsvParserStatus')][0]['e'])
    LL = ['Latitude', 'longitude']
    GOOD = {'latitude': '12.5', 'longitude': '-7'}

    def line(sch, k=0, **over):
        r = []
        for i, c in enumerate(sch):
            r.append(over.get(c.lower().replace('-', '_'), GOOD.get(c.lower(), 'v%d%d' % (k, i))))
        return r
    schemas = [LL, LL[::-1], ['name'] + LL, LL + ['NAME'], ['description', 'name'] + LL, ['x'] + LL + ['y'], ['Feature-ID'] + LL, LL + ['style-id'], ['Style-Id', 'latitude', 'x', 'longitude', 'feature-id', 'name', 'y', 'description'],
               ['longitude', 'y', 'latitude', 'names', 'lat', 'description']]
    items = []
    for sch in schemas:
        items.append((sch, [line(sch)], None))
        items.append((sch, [line(sch), line(sch, 1)], None))
        items.append((sch, [line(sch)[:-1], line(sch) + ['more'], line(sch, 2)], None))
        items.append((sch, [['#' + line(sch)[0]] + line(sch)[1:], ['#'], [], line(sch, 3)], None))
        items.append((sch, [line(sch, latitude='north'), line(sch, longitude=''), line(sch, latitude='-.5', longitude='1e2'), line(sch, 4, name='', description='', feature_id='', style_id='')], None))
        for stop in (0, 1):
            items.append((sch, [line(sch), line(sch, 1), line(sch, 2)], stop))
        for stop in (0, 1, 2):
            items.append((sch, [['#'], line(sch)[:-1], line(sch, latitude='north'), line(sch, 2)], stop))
    items += [(s, [], None) for s in ([], ['name', 'latitude'], ['longitude'], ['lat', 'lon'], ['x', 'y', 'z'], LL)]
    items += [(None, [], None), ('nosplit', [], None), ('nohandler', [], None)]

    def one(c, it):
        sch, lns, stop = it
        cl = ICl()
        seq = [] if sch is None or isinstance(sch, str) else [sch] + lns

        def split(ip, st, fr, g, this, args, node):
            k = st.mem.get(('line',), ZERO)[1]
            st.mem[('line',)] = ('c', k + 1)
            if k >= len(seq):
                return [(st, ZERO)]
            if args[0] != ZERO:
                l = ip.deref_loc(args[0])
                cur = ip.load(st, l)
                if cur[0] != 'vec':
                    raise AnalysisBroken('the columns go to an unknown list')
                ip.store(st, l, ('vec', cur[1] + tuple(S(x) for x in seq[k])), fr, node)
            return [(st, ONE)]

        def handle(ip, st, fr, g, this, args, node):
            k = len([e for e in st.trace if e[0] == 'line'])
            st.trace = st.trace + (('line', args[0], args[1], models.valarg(ip, st, g, 2, args)),)
            return [(st, ZERO if stop is not None and k == stop else ONE)]
        cl.events = {'kmlbase::CsvSplitter::SplitCurrentLine': split, 'kmlconvenience::CsvParserHandler::HandleLine': handle}
        ip = EInterp(d.db, cl)
        st = State()
        sp, h = obj(st, 'SPLIT', 'kmlbase::CsvSplitter'), obj(st, 'HANDLER', 'kmlconvenience::CsvParserHandler')
        rs = ip.run(f, None, [ZERO if sch == 'nosplit' else sp, ZERO if sch == 'nohandler' else h], st)

        def expect(q, s):
            ret = q(mk_nz(s.mem[('ret',)]))
            ev = [e[1:] for e in s.trace if e[0] == 'line']
            if sch is None or isinstance(sch, str):
                return None if not ret and not ev else 'succeeds without data'
            low = [x.lower() for x in sch]
            if not sch or 'latitude' not in low or 'longitude' not in low:
                w = ST['CSV_PARSER_STATUS_NO_LAT_LON' if sch else 'CSV_PARSER_STATUS_BLANK_LINE']
                if ret:
                    return 'succeeds without columns for the position'
                return None if [(e[0], e[1]) for e in ev] == [(ONE, ('c', w))] else 'the bad header is not reported'
            n = len(lns) if stop is None else stop + 1
            if ret != (stop is None):
                return 'says %s although %s' % (ret, 'it was stopped' if stop is not None else 'all lines were read')
            if len(ev) != n:
                return '%d lines are reported instead of %d' % (len(ev), n)
            if len({e[2] for e in ev}) != n:
                return 'two lines give the same placemark'
            for k, (num, status, pm) in enumerate(ev):
                cols = lns[k]
                if num != ('c', k + 2):
                    return 'line %d is reported as line %s' % (k + 2, pp(num))
                isnum = lambda v: bool(v) and v.lstrip('-').lstrip('.')[:1].isdigit()
                val = dict(zip(low, cols))
                if cols and cols[0].startswith('#'):
                    w = 'COMMENT'
                elif len(cols) != len(sch):
                    w = 'INVALID_DATA'
                elif not isnum(val['latitude']) or not isnum(val['longitude']):
                    w = 'BAD_LAT_LON'
                else:
                    w = 'OK'
                if status != ('c', ST['CSV_PARSER_STATUS_' + w]):
                    return 'the status of %s is wrong' % cols
                if w != 'OK':
                    continue
                ge = path(ip, s, pm, ('geometry',))
                co = path(ip, s, ge, ('coordinates',)) if ge != ZERO else ZERO
                tp = tuples(ip, d, s, co) if co != ZERO else None
                if tp is None or len(tp) != 1:
                    return 'the placemark has no point'
                for got, nm in ((tp[0][0], 'longitude'), (tp[0][1], 'latitude')):
                    if got != T('num', S('double'), S(val[nm]), T('classic')) and not (got[0] == 'c' and got[1] == float(val[nm])):
                        return 'the %s is %s instead of %s' % (nm, pp(got), val[nm])
                for fld, nm in (('name', 'name'), ('description', 'description'), ('id', 'feature-id'), ('styleurl', 'style-id')):
                    has = path(ip, s, pm, ('has_' + fld,)) if False else getter(ip, s, 'kmldom::Placemark', 'has_' + fld, pm)
                    v = val.get(nm)
                    if nm in PREFIX:
                        v = None if not v else PREFIX[nm] + v
                        if v and nm == 'style-id':
                            v = 'style.kml#' + v
                    if mk_nz(has) != (ONE if v is not None else ZERO):
                        return '%s is %s' % (fld, 'set' if v is None else 'not set')
                    if v is not None and getter(ip, s, 'kmldom::Placemark', 'get_' + fld, pm) != S(v):
                        return '%s is %s instead of %s' % (fld, pp(getter(ip, s, 'kmldom::Placemark', 'get_' + fld, pm)), v)
                ext = [(S(sch[i]), S(cols[i])) for i, x in enumerate(low) if x not in ('name', 'description', 'latitude', 'longitude', 'feature-id', 'style-id')]
                ed = getter(ip, s, 'kmldom::Placemark', 'get_extendeddata', pm)
                got = []
                if ed != ZERO:
                    m = getter(ip, s, 'kmldom::ExtendedData', 'get_data_array_size', ed)
                    if m[0] != 'c':
                        return 'the extended data is unknown'
                    for i in range(m[1]):
                        x = getter_at(ip, s, 'kmldom::ExtendedData', 'get_data_array_at', ed, i)
                        got.append((getter(ip, s, 'kmldom::Data', 'get_name', x), getter(ip, s, 'kmldom::Data', 'get_value', x)))
                if got != ext:
                    return 'the extended data is %s instead of %s' % ([(pp(a), pp(b)) for a, b in got], ext)
            return None
        report(c, 'I2', 'placemarks of %s: %s%s' % (sch, lns, '' if stop is None else ', stopped'), f, rs, expect, ip)
    harness.parallel(chk, items, one)
    # the older form: score|lat|lon|name|description[|style]
    g = method(d, 'kmlconvenience::CsvFile', 'ParseCsvLine', 1)
    FLD = [k for k, x in EInterp(d.db, ICl()).all_fields('kmlconvenience::FeatureList') if 'list<' in EInterp(d.db, ICl()).ty(x['t']).get('n', '')][0]
    for text in ('10|1.5|-2|nm|some desc', '10|1.5|-2|nm|some desc|#st', '|0|0|||', '1|2|3|4', 'x', '5|6|7|8|9|u|more'):
        ip = EInterp(d.db, ICl())
        st = State()
        L = obj(st, 'LIST', 'kmlconvenience::FeatureList')
        st.mem[('m', L, FLD)] = ('vec', ())
        o = obj(st, 'CF', 'kmlconvenience::CsvFile')
        st.mem[('exact', o)] = ONE
        st = single(ip.run(ctor(d, 'kmlconvenience::CsvFile', 1), o, [L], st), 'CsvFile')[0]
        rs = ip.run(g, o, [('p', ip.tmp(st, S(text)))], st)
        p = text.split('|')

        def expect(q, s):
            v = ip.load(s, ('m', L, FLD))
            if v[0] != 'vec':
                return 'the list is unknown'
            if len(v[1]) != (1 if len(p) >= 5 else 0):
                return '%d placemarks instead of %d' % (len(v[1]), len(p) >= 5)
            if not v[1]:
                return None
            pm = v[1][0]
            for fld, w in (('name', p[3]), ('description', p[4]), ('styleurl', p[5] if len(p) > 5 else '')):
                if getter(ip, s, 'kmldom::Placemark', 'get_' + fld, pm) != S(w):
                    return '%s is %s instead of %s' % (fld, pp(getter(ip, s, 'kmldom::Placemark', 'get_' + fld, pm)), w)
            tp = tuples(ip, d, s, path(ip, s, path(ip, s, pm, ('geometry',)), ('coordinates',)))
            num = lambda x: T('num', S('double'), S(x), T('classic'))
            if tp is None or [t[:2] for t in tp] != [(num(p[2]), num(p[1]))]:
                return 'the position is wrong'
            ed = getter(ip, s, 'kmldom::Placemark', 'get_extendeddata', pm)
            if ed == ZERO:
                return 'the score is lost'
            x = getter_at(ip, s, 'kmldom::ExtendedData', 'get_data_array_at', ed, 0)
            return None if getter(ip, s, 'kmldom::Data', 'get_value', x) == S(p[0]) else 'the score is wrong'
        report(chk, 'I2', 'placemark of %r' % text, g, rs, expect, ip)


def tracks(chk, d):
    GH = 'kmlconvenience::GpxTrkPtHandler'
    se, ee, cd = (method(d, GH, n) for n in ('StartElement', 'EndElement', 'CharData'))
    A, B = ('lat', '-33.9', 'lon', '18.4'), ('lon', '2', 'lat', '1')

    def pt(at, *kids):
        return [('s', 'trkpt', at)] + [e for k in kids for e in k] + [('e', 'trkpt')]

    def el(n, *parts):
        return [('s', n, ())] + [('c', p) for p in parts] + [('e', n)]
    ele, tm, oth = el('ele', '4.9'), el('time', '2008-10-11T', '14:55:41Z'), el('name', 'zz')
    seqs = [pt(A), pt(B), pt(A, ele), pt(A, tm), pt(A, ele, tm), pt(A, tm, ele), pt(A, oth, ele, oth, tm), pt(('lat', '1')), pt(('lon', '1')), pt(()), pt(('lat', '1', 'lon')),
            el('time', 'file time') + pt(A), el('ele', '7') + pt(A), el('wpt') + pt(A, ele)]
    seqs += [x + y for x in (pt(A, ele, tm), pt(A), pt(())) for y in (pt(B), pt(B, ele), pt(B, tm), pt(()), pt((), tm), pt(('lat', '5'), ele))]
    seqs += [pt(A, ele, tm) + pt(()) + pt(B, el('ele', '1', '2')), pt(A) + el('time', 'x') + pt(B) + pt(B, tm), pt(A, el('ele', ' 5 ')), pt(A, el('time'))]

    def one(c, seq):
        cl = ICl()

        def hp(ip, st, fr, g, this, args, node):
            v = ip.deref_loc(args[0]) if args[0][0] == 'p' else None
            o = args[0] if v is None or v in st.cls else v
            get = lambda n: getter(ip, st, 'kmlbase::Vec3', n, args[0])
            st.trace = st.trace + (('point', get('get_longitude'), get('get_latitude'), get('has_altitude'), get('get_altitude'), models.valarg(ip, st, g, 1, args)),)
            return [(st, VOID)]
        cl.events = {GH + '::HandlePoint': hp}
        ip = EInterp(d.db, cl)
        st = State()
        o = obj(st, 'GPX', GH)
        st.mem[('exact', o)] = ONE
        st = single(ip.run(ctor(d, GH, 0), o, [], st), 'handler')[0]
        xs = [st]
        want = []
        cur = None
        tx = ''
        for e in seq:
            ys = []
            for s in xs:
                if e[0] == 's':
                    r = ip.run(se, o, [('p', ip.tmp(s, S(e[1]))), ('p', ip.tmp(s, ('vec', tuple(S(x) for x in e[2]))))], s)
                elif e[0] == 'e':
                    r = ip.run(ee, o, [('p', ip.tmp(s, S(e[1])))], s)
                else:
                    r = ip.run(cd, o, [('p', ip.tmp(s, S(e[1])))], s)
                ys += [s2 for s2, _ in r]
            xs = ys
            if e[0] == 's':
                tx = ''
                if e[1] == 'trkpt':
                    at = dict(zip(e[2][::2], e[2][1::2]))
                    ok = all(at.get(k, '').lstrip('-')[:1].isdigit() for k in ('lat', 'lon'))
                    cur = [at['lon'], at['lat'], None, ''] if ok else None
            elif e[0] == 'c':
                tx += e[1]
            elif e[1] == 'trkpt':
                if cur:
                    want.append(cur)
                cur = None
            elif cur and e[1] == 'ele':
                cur[2] = tx.strip()
            elif cur and e[1] == 'time':
                cur[3] = tx
        def num(g, x):
            if g[:2] == ('t', 'parse') and g[2] in ('double', S('double')) and g[3][0] == 's':
                return g[3][1].strip() == x
            return g == T('num', S('double'), S(x), T('classic')) or g[0] == 'c' and g[1] == float(x)

        def expect(q, s):
            ev = [e[1:] for e in s.trace if e[0] == 'point']
            if len(ev) != len(want):
                return '%d points are handled instead of %d' % (len(ev), len(want))
            for g, w in zip(ev, want):
                if not num(g[0], w[0]) or not num(g[1], w[1]):
                    return 'a point is at %s, %s instead of %s, %s' % (pp(g[0]), pp(g[1]), w[0], w[1])
                if mk_nz(g[2]) != (ONE if w[2] is not None else ZERO):
                    return 'a point has %s altitude' % ('no' if w[2] is not None else 'an')
                if w[2] and not num(g[3], w[2]):
                    return 'the altitude is %s instead of %s' % (pp(g[3]), w[2])
                if g[4] != S(w[3]):
                    return 'the time is %s instead of %r' % (pp(g[4]), w[3])
            return None
        report(c, 'I3', 'track points of %s' % ' '.join(e[0] + ':' + (e[1] if len(e) < 3 else e[1] + '(' + ' '.join(e[2]) + ')') for e in seq), se, [(s, ONE) for s in xs], expect, ip)
    harness.parallel(chk, seqs, one)


from regionator import getter_at


def run(chk, db):
    d = Dom(db)
    d.classes()
    chk.rule('I1', 'a line is split into exactly its columns, quoted ones kept as they are, and the data into exactly its lines, within the buffers')
    chk.rule('I2', 'each data line gives one placemark whose fields are the columns of the header, or a status saying why not')
    chk.rule('I3', 'each track point with a position is handled once with its own position, altitude and time')
    for g in (splitting, lines, placemarks, tracks):
        guard(chk, g.__name__, g, chk, d)
    return {}
