"""C26: mandatory fields of built records and the linking of pairs, over record kinds,
versions, supplied headers, clock values and time zones."""
import datetime
import io
import itertools
import os
import re
import sys
import time

from mc import build, ref
from mc.core import Out, Violation, require, same

ID = 'C26'
LEVEL = 'exploration'
RULE = ('every combination of record type x version form x URI x subset of supplied headers (in several spellings) x content type argument x how it is handed over, each clock value and time zone, '
        'and every pair of a request and a response over a menu; non-trivial: the record was built and written')
ASSUMPTIONS = ['The clock is faked where the library takes it from a module-level datetime or time; otherwise the date must lie between the real times before and after.',
               'A caller supplies no field twice, and no profile, digest or reference of a revisit other than by its argument.']

TYPES = ['response', 'request', 'revisit', 'resource', 'metadata', 'warcinfo', 'conversion', 'continuation', 'x-own']
DEFAULT = {'warcinfo': 'application/warc-fields', 'response': 'application/http; msgtype=response', 'revisit': 'application/http; msgtype=response',
           'request': 'application/http; msgtype=request', 'metadata': 'application/warc-fields'}
VERSIONS = [(None, 'WARC/1.0'), ('1.0', 'WARC/1.0'), ('1.1', 'WARC/1.1'), (1.1, 'WARC/1.1'), ('WARC/1.0', 'WARC/1.0'), ('WARC/1.1', 'WARC/1.1'), (1.0, 'WARC/1.0')]
URIS = ['http://example.com/', 'urn:x:\u4e2d', '', None]
DATE10 = re.compile(r'\d{4}-\d\d-\d\dT\d\d:\d\d:\d\dZ\Z')
DATE11 = re.compile(r'\d{4}-\d\d-\d\dT\d\d:\d\d:\d\d(\.\d{1,9})?Z\Z')
UUID = build.AUTO['warc-record-id']
# supplied headers: name -> values to choose from
SUPPLY = [('WARC-Record-ID', ['<urn:uuid:own>', '']), ('WARC-Date', ['1999-12-31T23:59:59Z', '']), ('WARC-Target-URI', ['http://supplied.example/']),
          ('Content-Type', ['text/own', '']), ('WARC-Type', ['wrong']), ('X-Own', ['v: w']), ('WARC-IP-Address', ['192.0.2.1'])]
SPELL = [str, str.lower, str.upper]
CLOCKS = [(2020, 1, 2, 3, 4, 5, 0), (2020, 1, 2, 3, 4, 5, 1), (2021, 12, 31, 23, 59, 59, 999999), (2024, 2, 29, 0, 0, 0, 100000), (1999, 1, 1, 0, 0, 0, 50), (2999, 6, 7, 8, 9, 10, 123456)]
ZONES = ['UTC', 'Asia/Tokyo', 'America/St_Johns', 'XXX-05:45']


def BOUNDS(tier):
    return dict(types=TYPES, versions=len(VERSIONS), uris=len(URIS), supplied=[n for n, _ in SUPPLY], clocks=len(CLOCKS), zones=ZONES, pairs=len(PAIR_SIDES) ** 2)


PAIR_SIDES = list(itertools.product(('http://a.example/', 'https://b.example/\xe9'), ('2001-01-01T00:00:00Z', None), ('<urn:uuid:%s>', None), ('plain', 'lower', 'linked')))


def units(tier):
    out = [dict(k='rec', t=t, v=v) for t in TYPES for v in range(len(VERSIONS) if tier == 'thorough' else 3)]
    out += [dict(k='ver', t=t) for t in TYPES]
    out += [dict(k='revisit', v=v) for v in range(len(VERSIONS))]
    out += [dict(k='warcinfo', v=v) for v in range(len(VERSIONS))]
    out += [dict(k='clock', v=v) for v in range(len(VERSIONS))]
    out += [dict(k='pair', a=i) for i in range(len(PAIR_SIDES))]
    out += [dict(k='ids')]
    return out


def explore(u, run):
    k = u['k']
    if k == 'rec':
        for uri in range(len(URIS)):
            for vals in itertools.product(*[[None] + list(range(len(v))) for _, v in SUPPLY]):
                for sp in range(3):
                    if sp and not any(x is not None for x in vals):
                        continue
                    for ct in ('', 'image/arg'):
                        run(('rec', u['t'], u['v'], uri, vals, sp, ct, 'buf'))
    elif k == 'ver':
        for v in range(len(VERSIONS)):
            for uri in range(len(URIS)):
                for how in ('buf', 'gz', 'file', 'builder', 'nolen', 'http', 'nopayload'):
                    run(('rec', u['t'], v, uri, (None,) * len(SUPPLY), 0, '', how))
    elif k == 'revisit':
        for uri in ('http://example.com/', 'https://b.example/\xe9'):
            for http in (False, True):
                for sup in itertools.product((0, 1), repeat=4):
                    for digest in ('sha1:AAA', 'SHA-256:bb=='):
                        for ru in (uri, 'http://other.example/'):
                            for rd in ('2001-01-01T00:00:00Z', '2001-01-01T00:00:00.123456Z'):
                                run(('revisit', u['v'], uri, http, sup, digest, ru, rd))
    elif k == 'warcinfo':
        for fn in ('f.warc', '', None, 'caf\xe9.warc.gz'):
            for n in range(len(INFOS)):
                run(('warcinfo', u['v'], fn, n))
    elif k == 'clock':
        for c in range(len(CLOCKS)):
            for z in range(len(ZONES)):
                for t in ('response', 'resource', 'warcinfo-rec', 'revisit-rec'):
                    run(('clock', u['v'], c, z, t))
        for z in range(len(ZONES)):
            for t in ('response', 'resource', 'warcinfo-rec', 'revisit-rec'):
                run(('clock', u['v'], None, z, t))
    elif k == 'pair':
        for b in range(len(PAIR_SIDES)):
            for cls in ('buf', 'gz', '11'):
                for kind in ('response', 'revisit'):
                    run(('pair', u['a'], b, cls, kind))
        for lack in itertools.product((False, True), repeat=3):
            for b in (0, 5, 12):
                for kind in ('response', 'revisit'):
                    run(('lack', u['a'], b, lack, kind))
    else:
        for n in range(4):
            run(('ids', n))


INFOS = [{}, {'software': 'mc', 'format': 'WARC File Format 1.0'}, {'a': '', 'b': None, 'c': 'x: y'}, {'n': 5, 'u': '\u4e2d'}, {'a': 'b' * 5000}]


def all_(headers, name):
    return [v for n, v in headers if n.lower() == name.lower()]


def one(headers, name, want, what=''):
    same(all_(headers, name), want if isinstance(want, list) else [want], what + name)


def check_id(headers, given):
    ids = all_(headers, 'WARC-Record-ID')
    require(len(ids) == 1, 'record ids: %s', ids)
    if given:
        same(ids[0], given, 'record id')
    else:
        require(UUID.match(ids[0]), 'record id %s', ids[0])
    return ids[0]


def check_date(headers, given, version, lo=None, hi=None, exact=None):
    ds = all_(headers, 'WARC-Date')
    require(len(ds) == 1, 'dates: %s', ds)
    if given:
        same(ds[0], given, 'date')
        return
    require((DATE11 if version == 'WARC/1.1' else DATE10).match(ds[0]), 'date %s in %s', ds[0], version)
    d = ds[0][:-1] + ('' if '.' in ds[0] else '.0')
    t = datetime.datetime.strptime(d[:26], '%Y-%m-%dT%H:%M:%S.%f')
    if exact is not None and t == exact.replace(microsecond=exact.microsecond if version == 'WARC/1.1' else 0):
        return
    if exact is not None and not FAKED:
        exact = None
    require(exact is None, 'date %s at %s', ds[0], exact)
    if lo is not None:
        require(lo.replace(microsecond=0) <= t <= hi, 'date %s is not between %s and %s', ds[0], lo, hi)


def now():
    return datetime.datetime.now(datetime.timezone.utc).replace(tzinfo=None)


FAKED = []


class Clock(object):
    """fakes the classes and functions the library's modules took from datetime and time"""

    def __init__(self, at):
        self.at = at

    def __enter__(self):
        real = datetime.datetime
        at = self.at

        class Fake(real):
            @classmethod
            def now(cls, tz=None):
                d = real(*at, tzinfo=datetime.timezone.utc)
                return d.astimezone(tz) if tz is not None else real.fromtimestamp(d.timestamp())

            @classmethod
            def utcnow(cls):
                return real(*at)

            @classmethod
            def today(cls):
                return cls.now()
        self.undo = []
        for name, m in list(sys.modules.items()):
            if name.startswith('warcio.') and getattr(m, 'datetime', None) is real:
                self.undo.append((m, real))
                m.datetime = Fake
                FAKED.append(1)

    def __exit__(self, *a):
        for m, real in self.undo:
            m.datetime = real
        del FAKED[:]


def writer(how, ver):
    from warcio.warcwriter import BufferWARCWriter, WARCWriter
    kw = {} if ver is None else {'warc_version': ver}
    if how == 'gz':
        return BufferWARCWriter(gzip=True, **kw)
    if how == 'file':
        return WARCWriter(io.BytesIO(), gzip=False, **kw)
    return BufferWARCWriter(gzip=False, **kw)


def written(w, gz=False):
    data = w.get_contents() if hasattr(w, 'get_contents') else w.out.getvalue()
    try:
        return ref.parse_written(data, gz)
    except ref.Bad as e:
        raise Violation('what was written is not a WARC file: %s' % e)


def check_core(headers, rtype, version, uri, given, ct, lo, hi, what, wrote):
    one(headers, 'WARC-Type', rtype, what)
    check_id(headers, given.get('warc-record-id'))
    check_date(headers, given.get('warc-date'), version, lo, hi)
    one(headers, 'WARC-Target-URI', [uri] if uri else [given['warc-target-uri']] if 'warc-target-uri' in given else [], what)
    for n, v in given.items():
        if n not in ('warc-type', 'warc-record-id', 'warc-date', 'warc-target-uri', 'content-type'):
            one(headers, n, v, what)
    if wrote:
        one(headers, 'Content-Type', ct or given.get('content-type') or DEFAULT.get(rtype, 'application/warc-record'), what)


def run_case(c):
    return globals()['do_' + c[0]](*c[1:])


def do_rec(rtype, v, ui, vals, sp, ct, how):
    ver, version = VERSIONS[v]
    uri = URIS[ui]
    w = writer(how, ver)
    b = w
    if how == 'builder':
        from warcio.recordbuilder import RecordBuilder
        b = RecordBuilder(**({} if ver is None else {'warc_version': ver}))
    hd = {}
    for (n, vs), x in zip(SUPPLY, vals):
        if x is not None:
            hd[SPELL[sp](n)] = vs[x]
    given = {n.lower(): y for n, y in hd.items()}
    lo = now()
    http = None
    if how == 'http':
        from warcio.statusandheaders import StatusAndHeaders
        http = StatusAndHeaders('200 OK', [('A', 'b')], protocol='HTTP/1.1')
    body = b'some: payload\r\n' if rtype not in ('response', 'request', 'revisit') or http else b'HTTP/1.1 200 OK\r\nA: b\r\n\r\nbody'
    if rtype == 'request' and not http:
        body = b'GET / HTTP/1.1\r\nA: b\r\n\r\nbody'
    kw = dict(warc_headers_dict=hd) if hd else {}
    if ct:
        kw['warc_content_type'] = ct
    if how != 'nopayload':
        kw['payload'] = io.BytesIO(body)
        if how != 'nolen':
            kw['length'] = len(body)
    if http:
        kw['http_headers'] = http
    r = b.create_warc_record(uri, rtype, **kw)
    hi = now()
    same(r.rec_type, rtype, 'record type')
    same(r.rec_headers.protocol, version, 'WARC version')
    check_core(r.rec_headers.headers, rtype, version, uri, given, ct, lo, hi, 'built: ', False)
    same(r.content_type, ct or given.get('content-type') or DEFAULT.get(rtype, 'application/warc-record'), 'content type')
    w.write_record(r)
    recs = written(w, how == 'gz')
    same(len(recs), 1, 'records')
    same(recs[0].version, version, 'WARC version written')
    check_core(recs[0].headers, rtype, version, uri, given, ct, lo, hi, 'written: ', True)
    one(recs[0].headers, 'Content-Length', str(len(recs[0].block)))
    return Out((rtype, version, ui, how, len(recs[0].headers)), states=[(rtype, v, ui, vals, sp, ct, how)])


def do_revisit(v, uri, http, sup, digest, ru, rd):
    from warcio.statusandheaders import StatusAndHeaders
    ver, version = VERSIONS[v]
    w = writer('buf', ver)
    names = [('WARC-Record-ID', '<urn:uuid:own>'), ('WARC-Date', '1999-12-31T23:59:59Z'), ('WARC-Refers-To', '<urn:uuid:orig>'), ('Content-Type', 'text/own')]
    hd = {n: x for (n, x), s in zip(names, sup) if s}
    lo = now()
    kw = {}
    if hd:
        kw['warc_headers_dict'] = hd
    if http:
        kw['http_headers'] = StatusAndHeaders('200 OK', [('A', 'b')], protocol='HTTP/1.1')
    r = w.create_revisit_record(uri, digest, ru, rd, **kw)
    hi = now()
    w.write_record(r)
    recs = written(w)
    same(len(recs), 1, 'records')
    for h, what in ((r.rec_headers.headers, 'built: '), (recs[0].headers, 'written: ')):
        check_core(h, 'revisit', version, uri, {n.lower(): x for n, x in hd.items()}, '', lo, hi, what, what == 'written: ')
        one(h, 'WARC-Profile', 'http://netpreserve.org/warc/%s/revisit/identical-payload-digest' % version[5:], what)
        one(h, 'WARC-Refers-To-Target-URI', ru, what)
        one(h, 'WARC-Refers-To-Date', rd, what)
        one(h, 'WARC-Payload-Digest', digest, what)
    same(recs[0].block, b'HTTP/1.1 200 OK\r\nA: b\r\n\r\n' if http else b'', 'block')
    return Out(('revisit', version, http, sup), states=[('revisit', v, uri, http, sup, digest, ru, rd)])


def do_warcinfo(v, fn, n):
    ver, version = VERSIONS[v]
    w = writer('buf', ver)
    lo = now()
    r = w.create_warcinfo_record(fn, dict(INFOS[n]))
    hi = now()
    w.write_record(r)
    recs = written(w)
    same(len(recs), 1, 'records')
    for h, what in ((r.rec_headers.headers, 'built: '), (recs[0].headers, 'written: ')):
        check_core(h, 'warcinfo', version, '', {}, '', lo, hi, what, what == 'written: ')
        one(h, 'WARC-Filename', [fn] if fn else [], what)
    same(recs[0].version, version, 'WARC version')
    same(recs[0].block, b''.join(('%s: %s\r\n' % kv).encode('utf-8') for kv in INFOS[n].items() if kv[1]), 'fields')
    return Out(('warcinfo', version, fn, n), states=[('warcinfo', v, fn, n)])


def do_clock(v, c, z, t):
    ver, version = VERSIONS[v]
    w = writer('buf', ver)
    was = os.environ.get('TZ')
    os.environ['TZ'] = ZONES[z]
    time.tzset()
    try:
        def make():
            if t == 'warcinfo-rec':
                return w.create_warcinfo_record('f', {'a': 'b'})
            if t == 'revisit-rec':
                return w.create_revisit_record('http://e/', 'sha1:A', 'http://e/', '2001-01-01T00:00:00Z')
            return w.create_warc_record('http://e/', t, payload=io.BytesIO(b'HTTP/1.1 200 OK\r\n\r\nx'))
        if c is None:
            lo = now()
            r = make()
            w.write_record(r)
            check_date(r.rec_headers.headers, None, version, lo, now())
        else:
            with Clock(CLOCKS[c]):
                r = make()
                w.write_record(r)
                check_date(r.rec_headers.headers, None, version, exact=datetime.datetime(*CLOCKS[c]))
        same(all_(written(w)[0].headers, 'WARC-Date'), all_(r.rec_headers.headers, 'WARC-Date'), 'date written')
    finally:
        if was is None:
            del os.environ['TZ']
        else:
            os.environ['TZ'] = was
        time.tzset()
    return Out(('clock', version, c, t), states=[('clock', v, c, z, t)])


def do_pair(a, b, cls, kind, lack=()):
    ver = '1.1' if cls == '11' else None
    w = writer(cls, ver)
    rs = []
    for side, t, x in ((PAIR_SIDES[a], kind, 'resp'), (PAIR_SIDES[b], 'request', 'req')):
        uri, date, rid, sp = side
        hd = {}
        f = str.lower if sp == 'lower' else str
        if date:
            hd[f('WARC-Date')] = date if x == 'resp' else '2002' + date[4:]
        if rid:
            hd[f('WARC-Record-ID')] = rid % x
        if sp == 'linked':
            hd['WARC-Concurrent-To'] = '<urn:uuid:third>'
        body = b'HTTP/1.1 200 OK\r\nA: b\r\n\r\nbody' if x == 'resp' else b'POST / HTTP/1.1\r\nA: b\r\n\r\nform'
        rs.append(w.create_warc_record(uri, t, payload=io.BytesIO(body), warc_headers_dict=hd))
    # (a response read from somewhere may lack them; the request then keeps its own)
    names = [n for n, x in zip(('WARC-Target-URI', 'WARC-Date', 'WARC-Record-ID'), lack) if x]
    for n in names:
        rs[0].rec_headers.remove_header(n)
    before = [dict((n.lower(), y) for n, y in r.rec_headers.headers) for r in rs]
    w.write_request_response_pair(rs[1], rs[0])
    recs = written(w, cls == 'gz')
    same([all_(r.headers, 'WARC-Type') for r in recs], [[kind], ['request']], 'records, in order')
    resp, req = recs[0].headers, recs[1].headers
    for n in ('WARC-Target-URI', 'WARC-Date', 'WARC-Record-ID'):
        one(resp, n, [] if n in names else before[0][n.lower()], 'response ')
    one(resp, 'WARC-Concurrent-To', ['<urn:uuid:third>'] if PAIR_SIDES[a][3] == 'linked' else [], 'response ')
    one(req, 'WARC-Target-URI', before[1]['warc-target-uri'] if 'WARC-Target-URI' in names else PAIR_SIDES[a][0], 'request ')
    one(req, 'WARC-Date', before['WARC-Date' in names]['warc-date'], 'request ')
    one(req, 'WARC-Record-ID', before[1]['warc-record-id'], 'request ')
    link = all_(req, 'WARC-Concurrent-To')
    rid = [before[0]['warc-record-id']] if 'WARC-Record-ID' not in names else []
    require(not rid or rid[0] in link, 'the request is linked to %s, not to the response %s', link, rid)
    same(sorted(link), sorted(rid + (['<urn:uuid:third>'] if PAIR_SIDES[b][3] == 'linked' else [])), 'links of the request')
    same((ref.split_http(recs[0].block)[1], ref.split_http(recs[1].block)[1]), (b'body' if kind != 'revisit' else b'', b'form'), 'bodies')
    return Out(('pair', kind, cls, len(resp), len(req)), states=[('pair', a, b, cls, kind)])


def do_lack(a, b, lack, kind):
    return do_pair(a, b, 'buf', kind, lack)


def do_ids(n):
    """ids are unique over builders, record kinds and processes"""
    from warcio.recordbuilder import RecordBuilder
    ids = []

    def make(k):
        out = []
        for i in range(k):
            b = RecordBuilder()
            out.append(b.create_warc_record('http://e/', 'resource', io.BytesIO(b'x')))
            out.append(b.create_warcinfo_record('f', {}))
            out.append(b.create_revisit_record('http://e/', 'sha1:A', 'http://e/', '2001-01-01T00:00:00Z'))
        return [r.rec_headers.get_header('WARC-Record-ID') for r in out]
    ids = make(100)
    # processes forked from this one
    for _ in range(2):
        r, w = os.pipe()
        pid = os.fork()
        if not pid:
            try:
                os.write(w, '\n'.join(make(10)).encode())
            finally:
                os._exit(0)
        os.close(w)
        with os.fdopen(r) as f:
            ids += f.read().split('\n')
        os.waitpid(pid, 0)
    ids += make(10)
    same(len(ids), 300 + 60 + 30, 'ids')
    require(len(set(ids)) == len(ids), 'record ids repeat')
    return Out(('ids', n), states=[('ids', n)])
