"""The menu of reference records used to build archives, and the comparison of
what the library reads with what is stored."""
import functools

from mc import ref
from mc.core import same, require, Violation
from mc.ref import w_response, w_request, warc, arc_header, arc_doc, arc_response, Rec

CT = 'application/http; msgtype=response'


def _chunk_resp(content, sizes, enc='', uid=1, te='chunked', ce=None, name='', big=False, hn=('Transfer-Encoding', 'Content-Encoding'), **kw):
    body = ref.chunked(ref.compress(enc, content), sizes, **kw)
    hs = [('Content-Type', 'text/html'), (hn[0], te)]
    if enc:
        hs.append((hn[1], ce or {'rawdeflate': 'deflate'}.get(enc, enc)))
    return w_response(body, uid=uid, headers=hs, content=content, name=name)


def _enc_resp(content, enc, ce=None, uid=1, name=''):
    return w_response(ref.compress(enc, content), uid=uid, headers=[('Content-Type', 'text/html'), (
        'Content-Encoding', ce or {'rawdeflate': 'deflate'}.get(enc, enc))], content=content, name=name)


def warc_menu():
    T = ref.text(90, 2)
    m = {}

    def add(name, r):
        r.name = name
        m[name] = r
    add('warcinfo', warc('warcinfo', None, b'software: mc\r\nformat: WARC File Format 1.0\r\n', ctype='application/warc-fields',
                         extra=[('WARC-Filename', 'file.warc')]))
    add('response', w_response(T))
    add('resp_chunked_gzip', _chunk_resp(T, [7, 20], 'gzip'))
    add('resp_chunked', _chunk_resp(T, [5, 1, 40]))
    add('resp_gzip', _enc_resp(T, 'gzip'))
    add('resp_br', _enc_resp(T, 'br'))
    add('resp_deflate', _enc_resp(T, 'rawdeflate'))
    add('resp_empty_body', w_response(b'', headers=[('X-A', '1')]))
    add('request_get', w_request())
    add('request_post', w_request(b'a=1&b=2\r\n\r\nx', method='POST', target='/form?q=1'))
    add('metadata', warc('metadata', 'http://example.com/', b'via: http://a/\r\nhopsFromSeed: L\r\n', ctype='application/warc-fields'))
    add('resource', warc('resource', 'http://example.com/bin', ref.pat(60, 5), ctype='application/octet-stream'))
    add('revisit_headers', w_response(b'', headers=[('Content-Type', 'text/html'), ('Content-Length', '9')], rtype='revisit',
                                      extra=[('WARC-Profile', 'http://netpreserve.org/warc/1.0/revisit/identical-payload-digest')]))
    add('revisit_body', w_response(b'not kept when written', headers=[('Content-Type', 'text/html')], rtype='revisit'))
    add('revisit_empty', warc('revisit', 'http://example.com/', b'', ctype=CT,
                              extra=[('WARC-Refers-To-Date', '2019-01-01T00:00:00Z')]))
    add('conversion', warc('conversion', 'http://example.com/', b'converted\r\n', ctype='text/plain', version='WARC/1.1',
                           date='2020-01-02T03:04:05.123456Z'))
    add('dns', warc('response', 'dns:example.com', b'20140101000000\nexample.com. 1 IN A 1.2.3.4\n', ctype='text/dns'))
    add('empty_resource', warc('resource', 'file:///x', b'', ctype='text/plain'))
    add('warcish', warc('resource', 'http://example.com/w', ref.warcish(150), ctype='application/warc'))
    add('resp_warcish', w_response(ref.warcish(90)))
    add('resp_latin1', w_response(T, headers=[('Content-Type', 'text/html'), ('X-L', 'caf\xe9')], charset='latin-1'))
    add('resp_utf8', w_response(T, headers=[('X-U', 'caf\xe9 \u4e2d'), ('X-V', 'a: b: c')], status='200 Tr\xe8s bien'))
    add('resp_nostatus', w_response(b'body', headers=[('X-A', 'b')], status='204', proto='HTTP/1.0'))
    add('nl_only', warc('resource', 'http://example.com/nl', b'\r\n\r\n\n', ctype='text/plain'))
    add('one_byte', warc('resource', 'http://example.com/1', b'W', ctype='text/plain'))
    add('continuation', warc('continuation', 'http://example.com/', b'HTTP/1.1 200 OK\r\nnot: parsed\r\n\r\nrest', ctype=CT,
                             extra=[('WARC-Segment-Number', '2')]))
    add('utf8_header', warc('resource', 'http://example.com/\u4e2d', b'x\n', ctype='text/plain', extra=[
        ('X-Custom', 'v\xe4lue: with: colons'), ('x-dup', '1'), ('X-Dup', '2'), ('X-E', '')]))
    add('https_resp', w_response(T, uri='https://example.com:8443/a?b=c#d'))
    add('uri_gt', warc('resource', 'http://example.com/a>', b'angle\n', ctype='text/plain'))
    low = warc('resource', 'http://example.com/low', b'lower\n', ctype='text/plain', version='WARC/0.18')
    low.headers = [(n.lower(), v) for n, v in reversed(low.headers)]
    add('lower_names', low)
    post = w_request(ref.chunked(ref.gz(T), [9, 30]), method='POST', headers=[('Host', 'example.com'), ('Transfer-Encoding', 'Chunked'), ('Content-Encoding', 'GZIP')])
    post.content = T
    add('req_chunked_gzip', post)
    add('revisit_chunked', w_response(ref.chunked(T, [50]), headers=[('transfer-encoding', 'chunked')], content=T, rtype='revisit'))
    return m


def big_menu():
    m = {}

    def add(name, r):
        r.name = name
        m[name] = r
    for n in (16383, 16384, 16385, 40000):
        add('big_%d' % n, warc('resource', 'http://example.com/big', ref.pat(n, 3), ctype='application/octet-stream'))
    add('big_resp', w_response(ref.text(40000)))
    add('big_zeros', warc('resource', 'http://example.com/z', b'\0' * 200000, ctype='application/octet-stream'))
    add('big_chunked', _chunk_resp(ref.text(50000), [16384, 1, 20000], 'gzip'))
    add('big_chunked_plain', _chunk_resp(ref.text(50000), [16384, 1, 20000]))
    add('big_warcish', warc('resource', 'http://example.com/w', ref.warcish(40000), ctype='application/warc'))
    add('big_header', warc('resource', 'http://example.com/' + 'h' * 17000, b'after a long header\n', ctype='text/plain',
                           extra=[('X-%d' % i, 'v' * i) for i in range(0, 200, 7)]))
    add('big_http_header', w_response(b'after long http headers', headers=[('X-Long', 'w' * 33000), ('X-End', 'e')]))
    add('big_nonl', w_response(b'x' * 40000))
    return m


def arc_menu():
    T = ref.text(70, 4)
    m = {}

    def add(name, r):
        r.name = name
        m[name] = r
    add('arc_header', arc_header())
    add('arc_header_meta', arc_header(rest=b'<?xml version="1.0"?>\n<arcmetadata>m</arcmetadata>\n\n', mime='text/xml'))
    add('arc_resp', arc_response(T))
    add('arc_resp_space', arc_response(b'spaced', uri='http://example.com/a b c?d=e f'))
    add('arc_resp_lf', arc_response(T, eol=b'\n', headers=[('Content-Type', 'text/plain')]))
    add('arc_dns', arc_doc(b'20140101000000\nexample.com. 1 IN A 1.2.3.4\n', 'dns:example.com', mime='text/dns'))
    add('arc_empty', arc_doc(b'', 'http://example.com/empty', mime='no-type'))
    add('arc_chunked', arc_response(ref.chunked(ref.gz(T), [9, 30]), headers=[('Transfer-Encoding', 'chunked'), ('Content-Encoding', 'gzip')],
                                    content=T, proto='HTTP/1.1'))
    add('arc_nl', arc_doc(b'\n\n\n', 'ftp://example.com/x', mime='text/plain'))
    add('arc_utf8', arc_response(b'u', uri='http://example.com/caf\xe9'))
    return m


@functools.lru_cache(None)
def scale_menu():
    """one record for each thing there may be many or much of"""
    m = {}
    C = ref.pat(300000, 6)

    def add(name, r):
        r.name = name
        m[name] = r
    add('sc_headers', warc('resource', 'http://example.com/', b'after many headers\n', ctype='text/plain', extra=[('X-%d' % i, 'v%d' % i) for i in range(2500)]))
    add('sc_value', warc('resource', 'http://example.com/', b'after a long value\n', ctype='text/plain', extra=[('X-Long', 'v' * 150000), ('X-End', 'e')]))
    add('sc_name', warc('resource', 'http://example.com/', b'after a long name\n', ctype='text/plain', extra=[('X-' + 'n' * 70000, 'v'), ('X-End', 'e')]))
    add('sc_uri', warc('resource', 'http://example.com/' + 'u' * 90000, b'after a long uri\n', ctype='text/plain'))
    add('sc_http', w_response(b'after many http headers', headers=[('X-%d' % i, 'v%d' % i) for i in range(2500)]))
    add('sc_cookies', w_response(b'after many equal http headers', headers=[('Set-Cookie', 'a=%d' % i) for i in range(1200)]))
    add('sc_httpvalue', w_response(b'after a long http value', headers=[('X-Long', 'w' * 150000), ('X-End', 'e')]))
    add('sc_status', w_response(b'after a long status', headers=[('X-End', 'e')], status='200 ' + 's' * 70000))
    add('sc_target', w_request(b'after a long target', method='POST', target='/' + 't' * 70000))
    add('sc_body', w_response(C * 12))
    add('sc_raw', warc('resource', 'http://example.com/', C * 12, ctype='application/octet-stream'))
    add('sc_lines', warc('resource', 'http://example.com/', b'\n' * 100000 + b'\r\n' * 70000, ctype='text/plain'))
    add('sc_line', warc('resource', 'http://example.com/', b'l' * 400000 + b'\n' + b'm' * 10, ctype='text/plain'))
    add('sc_warcish', warc('resource', 'http://example.com/', ref.warcish(300000), ctype='application/warc'))
    add('sc_chunks', _chunk_resp(C[:4000], [1]))
    add('sc_chunk', _chunk_resp(C * 8, [8 * len(C)]))
    add('sc_chunkgz', _chunk_resp(C[:200000], [70000, 3], 'gzip'))
    add('sc_trailers', _chunk_resp(C[:50], [7], trailers=b''.join(b'X-%d: t\r\n' % i for i in range(700))))
    add('sc_trailer', _chunk_resp(C[:50], [7], trailers=b'X: ' + b't' * 70000 + b'\r\n'))
    add('sc_ext', _chunk_resp(C[:50], [7], ext=b';e="' + b'x' * 9000 + b'"'))
    add('sc_gzip', _enc_resp(b'\0' * 4000000, 'gzip'))
    add('sc_br', _enc_resp(b'\0' * 4000000, 'br'))
    add('sc_deflate', _enc_resp(C * 4, 'rawdeflate'))
    return m


@functools.lru_cache(None)
def scale_arc_menu():
    m = {}
    C = ref.pat(300000, 7)

    def add(name, r):
        r.name = name
        m[name] = r
    add('arc_sc_header', arc_header(rest=b'<x>\n' * 20000))
    add('arc_sc_name', arc_header(fname='n' * 50000 + '.arc'))
    add('arc_sc_uri', arc_response(b'after a long uri', uri='http://example.com/' + 'u ' * 40000 + 'z'))
    add('arc_sc_body', arc_response(C * 8))
    add('arc_sc_http', arc_response(b'after many headers', headers=[('X-%d' % i, 'v') for i in range(2500)]))
    add('arc_sc_mime', arc_doc(b'after a long type', 'ftp://example.com/x', mime='text/' + 'x' * 50000))
    return m


# ------------------------------------------------------------------ expectations
def expected(rec, opts=()):
    """what iterating must yield for rec under options: dict of observables"""
    no_parse = 'no_record_parse' in opts
    http = None if no_parse else rec.http
    raw = rec.block if http is None else rec.body
    e = dict(format=rec.fmt, rec_type=rec.rec_type, headers=list(rec.headers), http=http, raw=raw,
             content=rec.content if http is not None else raw, length=len(rec.block),
             ctype=rec.get('content-type'), protocol=rec.version)
    if http is not None and http[2] is not None and len(rec.block) == len(rec.httpblock):
        pass
    if rec.fmt == 'arc':
        e['protocol'] = 'WARC/1.0' if False else None
        if rec.rec_type == 'arc_header':
            e['length'] = len(rec.block)
    return e


def check_headers(record, rec, opts=(), what=''):
    e = expected(rec, opts)
    same(record.format, e['format'], what + 'format')
    same(record.rec_type, e['rec_type'], what + 'rec_type')
    same([tuple(h) for h in record.rec_headers.headers], e['headers'], what + 'record headers')
    if e['protocol']:
        same(record.rec_headers.protocol, e['protocol'], what + 'WARC version')
    if e['http'] is None:
        require(record.http_headers is None, what + 'HTTP headers where none are stored: %s', record.http_headers)
    else:
        require(record.http_headers is not None, what + 'no HTTP headers')
        same(record.http_headers.protocol, e['http'][0], what + 'HTTP protocol')
        same(record.http_headers.statusline, e['http'][1], what + 'HTTP status')
        same([tuple(h) for h in record.http_headers.headers], e['http'][2], what + 'HTTP headers')
    same(record.length, e['length'], what + 'length')
    same(record.content_type, e['ctype'], what + 'content type')
    return e


def drain(stream, size=None):
    if size is None:
        out = stream.read()
        more = stream.read()
        require(not more, 'read() after read() returned more data: %s', more[:80] if more else more)
        return out
    out = []
    while True:
        b = stream.read(size)
        if not b:
            break
        require(len(b) <= size, 'read(%s) returned %s bytes', size, len(b))
        out.append(b)
    return b''.join(out)
