"""C16: every combination of ARC fields (file header and document), in every position,
storage and reading mode, against the fields stored; converted records written and parsed strictly."""
import functools
import io
import itertools

from mc import menu, ref
from mc.core import Out, Violation, require, same

ID = 'C16'
LEVEL = 'exploration'
RULE = ('URL x address x date x type x content x line end x position x storage x reading mode for documents; name x address x date x version lines x '
        'metadata for file headers; converted records are written with and without gzip and parsed strictly; non-trivial: the record was delivered')
ASSUMPTIONS = ['Records are separated by one or more newlines and use the five-field (version 1) record line.',
               'The Content-Length header of a converted file header may count the version lines or not (its record length and content are judged).']
URLS = ['http://example.com/', 'https://example.com:8443/a?b=c#d', 'http://example.com/a b', 'http://example.com/a b  c?d=e f ', 'dns:example.com', 'ftp://e/x y z',
        'http://example.com/caf\xe9', 'http://example.com/\u4e2d \u6587', 'whois://whois.example/1 2 3 4 5', 'HTTP://EXAMPLE.com/', 'http://e/1.2.3.4 20140216050221 text/html 5',
        'filedescx', 'urn:uuid:5', 'http://e/<x>', 'warc://x', 'http://e/a%20b+c&d']
IPS = ['93.184.216.119', '0.0.0.0', '-', '2001:db8::1', '255.255.255.255']
DATES = ['20140216050221', '19961231235959', '20000229000000', '201402160502', '20140231000000']
ISO = {'20140216050221': '2014-02-16T05:02:21Z', '19961231235959': '1996-12-31T23:59:59Z', '20000229000000': '2000-02-29T00:00:00Z',
       '201402160502': '2014-02-16T05:02:59Z', '20140231000000': '2014-02-28T00:00:00Z'}
MIMES = ['text/html', 'no-type', 'text/html;charset=utf-8', 'unk', 'application/x-\xe9']
CONTENTS = ['empty', 'one', 'http', 'http_lf', 'http_empty', 'http_big', 'http_chunked', 'arcish', 'nl', 'bin', 'big', 'h16384', 'long_http', 'http_latin']
FNAMES = ['test.arc', 'IAH-20080430204825-00000-blackbook.arc.gz', 'my file.arc', 'caf\xe9.arc', 'dir/x.arc', '']
VERSIONS = [b'1 0 InternetArchive\nURL IP-address Archive-date Content-type Archive-length\n',
            b'1 1 Alexa Internet\nURL IP-address Archive-date Content-type Archive-length\n',
            b'1 0 Biblioth\xc3\xa8que \xe4\xb8\xad\nURL IP-address Archive-date Content-type Archive-length\n',
            b'1 0 Biblioth\xe8que\nURL IP-address Archive-date Content-type Archive-length\n',
            b'1 0 CRLF\r\nURL IP-address Archive-date Content-type Archive-length\r\n',
            b'2 0 X\nURL IP-address Archive-date Content-type Result-code Checksum Location Offset Filename Archive-length\n']
METAS = [b'', b'\n', b'<?xml version="1.0"?>\n<arcmetadata>\xc3\xa9</arcmetadata>\n', b'\n\n', ref.text(20000), b'http://example.com/ 1.2.3.4 20140216050221 text/html 3\nabc\n']
SEPS = [b'\n', b'\n\n', b'\r\n', b'\r\n\r\n']
MODES = ['arc', 'warc', 'arciter', 'arcnp', 'warcnp', 'warcloose']


def BOUNDS(tier):
    return dict(urls=len(URLS), addresses=len(IPS), dates=DATES, types=MIMES, contents=CONTENTS, file_names=len(FNAMES), versions=len(VERSIONS), metadata=len(METAS),
                separators=len(SEPS), storage=['plain', 'gz', 'gz0'], modes=MODES)


def content(c):
    """(http header block, http tuple, body, decoded content)"""
    T = ref.text(70, 4)
    hs = [('Content-Type', 'text/html'), ('X-Y', 'a: b')]

    def h(body, head=hs, status='200 OK', eol=b'\r\n', proto='HTTP/1.0', charset='utf-8', dec=None):
        return ref.http_block(proto + ' ' + status, head, charset, eol), (proto, status, list(head)), body, body if dec is None else dec
    return {'empty': lambda: (b'', None, b'', b''), 'one': lambda: (b'', None, b'x', b'x'),
            'http': lambda: h(T), 'http_lf': lambda: h(T, eol=b'\n'), 'http_empty': lambda: h(b''), 'http_big': lambda: h(ref.pat(40000, 2)),
            'http_chunked': lambda: h(ref.chunked(ref.gz(T), [9]), [('Transfer-Encoding', 'chunked'), ('Content-Encoding', 'gzip')], proto='HTTP/1.1', dec=T),
            'arcish': lambda: (b'', None, METAS[5], METAS[5]), 'nl': lambda: (b'', None, b'\n\r\n\n', b'\n\r\n\n'),
            'bin': lambda: (b'', None, ref.pat(99, 1), ref.pat(99, 1)), 'big': lambda: (b'', None, ref.pat(30000, 1), ref.pat(30000, 1)),
            'h16384': lambda: h(ref.pat(16384, 3)), 'long_http': lambda: h(b'z', [('X-%d' % i, 'v' * 99) for i in range(200)]),
            'http_latin': lambda: h(b'z', [('X-L', 'caf\xe9')], charset='latin-1')}[c]()


def http_url(u):
    return u.startswith(('http:', 'https:'))


HTTP_C = [c for c in CONTENTS if content(c)[1]]


def units(tier):
    T = tier == 'thorough'
    out = []
    for ui in range(len(URLS)):
        for c in CONTENTS:
            if http_url(URLS[ui]) and c not in HTTP_C and c != 'empty':
                continue
            out.append(dict(t='doc', u=ui, c=c, full=T))
    for fi in range(len(FNAMES)):
        for vi in range(len(VERSIONS)):
            out.append(dict(t='head', f=fi, v=vi, full=T))
    for pre in ('none', 'head', 'doc'):
        for sep in range(len(SEPS)):
            out.append(dict(t='files', pre=pre, sep=sep))
    return out


def explore(u, run):
    if u['t'] == 'doc':
        for ip in range(len(IPS)):
            for d in range(len(DATES)):
                for m in range(len(MIMES)):
                    if not u['full'] and (ip > 1) + (d > 1) + (m > 1) > 1:
                        continue
                    for fmt in ('plain', 'gz'):
                        for mode in MODES if u['full'] or (ip, m) in ((0, 0), (1, 1)) else ('arc', 'warc'):
                            run(('doc', u['u'], ip, d, m, u['c'], fmt, mode))
    elif u['t'] == 'head':
        for ip in range(len(IPS)):
            for d in range(len(DATES)):
                for k in range(len(METAS)):
                    for fmt in ('plain', 'gz'):
                        for mode in MODES if u['full'] or ip == 0 else ('arc', 'warc'):
                            run(('head', u['f'], u['v'], ip, d, k, fmt, mode))
    else:
        names = [n for n in menu.arc_menu()]
        for n in names:
            for o in names:
                for fmt in ('plain', 'gz', 'gz0'):
                    for mode in ('arc', 'warc'):
                        run(('file', u['pre'], n, o, u['sep'], fmt, mode))


@functools.lru_cache(2000)
def doc(ui, ip, d, m, c):
    hb, http, body, dec = content(c)
    if http and not http_url(URLS[ui]):
        hb, http, body, dec = b'', None, hb + body, hb + body
    return ref.arc_doc(body, URLS[ui], hb, http, IPS[ip], DATES[d], MIMES[m], dec)


@functools.lru_cache(2000)
def head(fi, vi, ip, d, k):
    return ref.arc_header(FNAMES[fi], METAS[k], IPS[ip], DATES[d], 'text/plain', VERSIONS[vi])


def iterator(data, mode):
    from warcio.archiveiterator import ArchiveIterator, ARCIterator
    fh = io.BytesIO(data)
    if mode == 'arciter':
        return ARCIterator(fh)
    return ArchiveIterator(fh, arc2warc=mode.startswith('warc'), no_record_parse=mode.endswith('np'), verify_http=mode != 'warcloose')


def want_warc(r):
    d = r.get('archive-date')
    isod = ISO.get(d) or '%s-%s-%sT%s:%s:%sZ' % (d[:4], d[4:6], d[6:8], d[8:10], d[10:12], d[12:14])
    if r.rec_type == 'arc_header':
        h = [('WARC-Type', 'warcinfo'), ('WARC-Filename', r.get('uri')[len('filedesc://'):]), ('Content-Type', r.get('content-type'))]
    else:
        u = r.get('uri')
        if u.startswith('<') and u.endswith('>'):
            u = u[1:-1]
        h = [('WARC-Type', 'response'), ('WARC-Target-URI', u.replace(' ', '%20')), ('Content-Type', 'application/http;msgtype=response')]
    return h + [('WARC-IP-Address', r.get('ip-address')), ('WARC-Date', isod)]


def judge(x, r, mode):
    parse = not mode.endswith('np')
    conv = mode.startswith('warc')
    http = r.http if parse else None
    raw = r.body if http else r.block
    if conv:
        same(x.format, 'warc', 'format')
        same(x.rec_type, 'warcinfo' if r.rec_type == 'arc_header' else 'response', 'type')
        hs = [tuple(h) for h in x.rec_headers.headers]
        ids = [v for n, v in hs if n == 'WARC-Record-ID']
        require(len(ids) == 1 and len(ids[0]) == len('<urn:uuid:>') + 36, 'record ids %s', ids)
        lens = [v for n, v in hs if n == 'Content-Length']
        require(lens == [str(len(r.block))] or (r.rec_type == 'arc_header' and lens == [r.get('length')]), 'Content-Length %s of %s bytes', lens, len(r.block))
        same(sorted((n, v) for n, v in hs if n not in ('WARC-Record-ID', 'Content-Length')), sorted(want_warc(r)), 'WARC headers')
        same(x.rec_headers.protocol, 'WARC/1.0', 'version')
    else:
        same(x.format, 'arc', 'format')
        same(x.rec_type, r.rec_type, 'type')
        same([tuple(h) for h in x.rec_headers.headers], r.headers, 'ARC fields')
        same(x.content_type, r.get('content-type'), 'content type')
    same(x.length, len(r.block), 'length')
    if http is None:
        require(x.http_headers is None, 'HTTP headers where none are')
    else:
        same((x.http_headers.protocol, x.http_headers.statusline), tuple(http[:2]), 'HTTP status')
        same([tuple(h) for h in x.http_headers.headers], http[2], 'HTTP headers')
    return raw


def run_case(case):
    from warcio.warcwriter import BufferWARCWriter
    t = case[0]
    nb = neighbours()
    if t == 'doc':
        _, ui, ip, d, m, c, fmt, mode = case
        recs = [nb['arc_header'], doc(ui, ip, d, m, c), nb['arc_resp']]
        sep = None
    elif t == 'head':
        _, fi, vi, ip, d, k, fmt, mode = case
        recs = [head(fi, vi, ip, d, k), nb['arc_resp']]
        sep = None
    else:
        _, pre, n, o, s, fmt, mode = case
        recs = ([] if pre == 'none' else [nb['arc_header'] if pre == 'head' else nb['arc_dns']]) + [nb[n], nb[o]]
        sep = SEPS[s]
    data, spans = ref.layout(recs, fmt, sep)
    it = iterator(data, mode)
    i = 0
    for x in it:
        require(i < len(recs), 'a record too many')
        r = recs[i]
        try:
            raw = judge(x, r, mode)
            if t == 'file' or i:
                same(x.raw_stream.read(), raw, 'raw content')
            else:
                same(x.content_stream().read(), r.content if r.http and not mode.endswith('np') else raw, 'content')
            same((it.get_record_offset(), it.get_record_length()), spans[i], 'offset and length')
        except Violation as v:
            raise Violation('record %d: %s' % (i, v.msg))
        i += 1
    same(i, len(recs), 'records')
    same(it.err_count, 0, 'err_count')
    if mode.startswith('warc'):
        for gz in (False, True):
            w = BufferWARCWriter(gzip=gz)
            for x in iterator(data, mode):
                w.write_record(x)
            try:
                out = ref.parse_written(w.get_contents(), gz)
            except ref.Bad as e:
                raise Violation('written records: %s' % e)
            same(len(out), len(recs), 'records written')
            for g, r in zip(out, recs):
                require(set(want_warc(r)) <= set(g.headers), 'written headers %s lack some of %s', g.headers, want_warc(r))
                if r.http and not mode.endswith('np'):
                    same(ref.split_http(g.block)[1], r.body, 'payload written')
                else:
                    same(g.block, r.block, 'block written')
                same(g.all('WARC-Block-Digest'), [ref.sha1_32(g.block)], 'block digest')
                if g.get('WARC-Type') != 'warcinfo' and not mode.endswith('np'):
                    same(g.all('WARC-Payload-Digest'), [ref.sha1_32(r.body)], 'payload digest')
    return Out(case, nontrivial=i > 1)


_nb = {}


def neighbours():
    if not _nb:
        _nb.update(menu.arc_menu())
    return _nb
