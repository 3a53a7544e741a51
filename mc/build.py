"""Records built with the library: specifications, how their payload is supplied,
and what the written file must hold, computed without the library."""
import io
import re
from collections import OrderedDict

from mc import ref
from mc.core import require, same
from mc.streams import ShortSeekable, TellNoSeek, Unseekable

DATE = '2020-01-02T03:04:05Z'
RID = '<urn:uuid:12345678-1234-1234-1234-%012d>'
HTTP_TYPES = {'response': 'application/http; msgtype=response', 'request': 'application/http; msgtype=request',
              'revisit': 'application/http; msgtype=response', 'warcinfo': 'application/warc-fields', 'metadata': 'application/warc-fields'}


class Spec(object):
    """rtype, uri, http: None | (protocol, statusline, headers), body, hdict extra WARC
    headers, ctype argument, version '1.0'/'1.1', raw: payload bytes whose HTTP headers
    are to be parsed although not in normal form"""

    def __init__(self, name, rtype, uri, body=b'', http=None, hdict=(), ctype=None, rawhead=None, via=None, auto=False):
        self.name, self.rtype, self.uri, self.body, self.http = name, rtype, uri, body, http
        self.hdict, self.ctype, self.rawhead, self.via, self.auto = list(hdict), ctype, rawhead, via, auto

    @property
    def head(self):
        """stored HTTP header block, in normal form"""
        if self.http is None:
            return b''
        p, s, hs = self.http
        first = ' '.join(x for x in (p, s) if x)
        out = (first + '\r\n') if first else ''
        for n, v in hs:
            out += n + ': ' + v + '\r\n'
        return (out + '\r\n').encode('ascii')

    def payload(self, how):
        """payload bytes to hand over: how 'parsed' includes the HTTP headers"""
        if how == 'parsed' and self.http is not None:
            return (self.rawhead if self.rawhead is not None else self.head) + self.body
        return self.body

    @property
    def kept(self):
        return b'' if self.rtype == 'revisit' and self.http is not None else self.body

    def with_body(self, body, suffix=''):
        s = Spec(self.name + suffix, self.rtype, self.uri, body, self.http, self.hdict, self.ctype, self.rawhead, self.via, self.auto)
        return s


def R(name, body, headers=(('Content-Type', 'text/html'), ('X-Dup', '1'), ('x-dup', '2'), ('X-Empty', '')), status='200 OK', proto='HTTP/1.1', **kw):
    return Spec(name, 'response', kw.pop('uri', 'http://example.com/'), body, (proto, status, list(headers)), **kw)


def menu():
    T = ref.text(80, 3)
    out = [
        R('response', T),
        R('resp_empty', b''),
        R('resp_nohdr', T, headers=()),
        R('resp_nostatus', T, status=''),
        R('resp_bare', T, headers=(), status='', rawhead=b'HTTP/1.1\r\n\r\n'),
        Spec('resp_blank', 'response', 'http://example.com/', T, ('', '', []), rawhead=b'\r\n'),
        R('resp_loose', T, headers=(('A', 'b'), ('C', 'd e')), rawhead=b'HTTP/1.1 200 OK\nA:b\nnot a header\nC  :   d\n e\n\n'),
        R('resp_blank_body', b'\r\n\r\n' + T),
        R('resp_colon', T, headers=(('X: y', 'a: b'), ('L', 'http://x/?a=1;b="2"'))),
        Spec('request', 'request', 'http://example.com/', b'', ('GET', '/ HTTP/1.1', [('Host', 'example.com')])),
        Spec('request_post', 'request', 'https://example.com/f', b'a=b\r\n\r\n', ('POST', '/f?x=%20y HTTP/1.0', [('Host', 'e'), ('Content-Length', '7')])),
        Spec('revisit', 'revisit', 'http://example.com/', b'', ('HTTP/1.1', '200 OK', [('A', 'b')]), hdict=[
            ('WARC-Payload-Digest', 'sha1:B6QJ6BNJ3R4B23XXMRKZKHLPGJY2VE4O')]),
        Spec('revisit_payload', 'revisit', 'http://example.com/', b'not kept', ('HTTP/1.1', '304 Not', [('A', 'b')])),
        Spec('revisit_nohdr', 'revisit', 'http://example.com/', b'', None),
        Spec('revisit_nonhttp', 'revisit', 'ftp://example.com/', b'226 some reply\r\n', None),
        Spec('resource', 'resource', 'ftp://example.com/', T, hdict=[('WARC-IP-Address', '127.0.0.1')], ctype='text/plain'),
        Spec('resource_hdr', 'resource', 'http://example.com/\xe9\u4e2d', T, hdict=[('Content-Type', 'image/png'), ('X-E', ''), ('x-u', '\u4e2d: \xe9;'), ('X-U', '2')]),
        Spec('resource_empty', 'resource', 'file:///x', b''),
        Spec('resource_one', 'resource', 'file:///x', b'\n', ctype='text/plain; charset=utf-8'),
        Spec('metadata', 'metadata', 'http://example.com/', b'via: x\r\n'),
        Spec('conversion', 'conversion', 'http://example.com/', ref.warcish(300), ctype='application/warc'),
        Spec('continuation', 'continuation', 'http://example.com/', b'HTTP/1.1 200 OK\r\nx: y\r\n\r\n', hdict=[('WARC-Segment-Number', '2')]),
        Spec('custom', 'x-custom', 'urn:thing', ref.pat(70, 4)),
        Spec('dns', 'response', 'dns:example.com', b'2020\nexample.com. IN A 1.2.3.4\n', ctype='text/dns'),
        Spec('nouri', 'metadata', '', T),
        Spec('nouri_resp', 'response', '', b'HTTP/1.1 200 OK\r\n\r\n' + T),
        Spec('noneuri_resp', 'response', None, b'HTTP/1.1 200 OK\r\n\r\n' + T),
        Spec('warcinfo', 'warcinfo', None, b'software: x\r\nformat: y: z\r\n', hdict=[('WARC-Filename', 'f.warc')]),
        Spec('swap', 'resource', 'http://example.com/', T, hdict=[('warc-type', 'other'), ('warc-target-uri', 'http://other/'), ('WARC-Other', 'z')]),
        Spec('auto', 'resource', 'http://example.com/auto', T, auto=True),
    ]
    return OrderedDict((s.name, s) for s in out)


def scale():
    """records with many or long parts"""
    T = ref.text(80, 3)
    big = ref.pat(1300000, 5)
    out = [
        R('sc_http', T, headers=[('X-%d' % i, 'v%d' % i) for i in range(2500)]),
        R('sc_cookies', T, headers=[('Set-Cookie', 'a=%d' % i) for i in range(1200)]),
        R('sc_value', T, headers=[('X', 'w' * 150000), ('Y', 'z')]),
        R('sc_name', T, headers=[('X' * 70000, 'w'), ('Y', 'z')]),
        R('sc_status', T, headers=(('A', 'b'),), status='200 ' + 's' * 70000),
        R('sc_loose', T, headers=[('X-%d' % i, 'v') for i in range(2500)], rawhead=b'HTTP/1.1 200 OK\n' + b''.join(b'X-%d:v\nno header\n' % i for i in range(2500)) + b'\n'),
        R('sc_body', big),
        Spec('sc_target', 'request', 'http://example.com/', b'', ('GET', '/' + 't' * 70000 + ' HTTP/1.1', [('Host', 'example.com')])),
        Spec('sc_revisit', 'revisit', 'http://example.com/', b'', ('HTTP/1.1', '200 OK', [('X-%d' % i, 'v%d' % i) for i in range(2500)])),
        Spec('sc_headers', 'resource', 'http://example.com/', T, hdict=[('X-%d' % i, 'v%d' % i) for i in range(2500)], ctype='text/plain'),
        Spec('sc_long', 'resource', 'http://example.com/', T, hdict=[('X-Long', 'v' * 150000), ('X-' + 'n' * 70000, 'v')], ctype='text/plain; x=' + 'y' * 70000),
        Spec('sc_uri', 'resource', 'http://example.com/' + 'u' * 150000, T),
        Spec('sc_zeros', 'resource', 'http://example.com/', b'\0' * 5000000),
        Spec('sc_lines', 'metadata', 'http://example.com/', b'\n' * 300000 + b'\r\n' * 100000),
        Spec('sc_warcish', 'conversion', 'http://example.com/', ref.warcish(900000), ctype='application/warc'),
    ]
    return OrderedDict((s.name, s) for s in out)


_all = {}


def get(name):
    if not _all:
        _all.update(menu())
        _all.update(scale())
    return _all[name]


STREAMS = ['bytes', 'offset', 'short1', 'short7', 'unseek', 'unseek5', 'tellno', 'gz', 'limit']


def stream(kind, data):
    if kind == 'bytes':
        return io.BytesIO(data)
    if kind == 'offset':
        s = io.BytesIO(b'123456789' + data)
        s.seek(9)
        return s
    if kind == 'short1':
        return ShortSeekable(data, 1)
    if kind == 'short7':
        return ShortSeekable(data, 7 if len(data) < 5000 else 9000)
    if kind == 'unseek':
        return Unseekable(data)
    if kind == 'unseek5':
        return Unseekable(data, 5 if len(data) < 5000 else 7001)
    if kind == 'tellno':
        return TellNoSeek(data)
    if kind == 'gz':
        from warcio.bufferedreaders import DecompressingBufferedReader
        return DecompressingBufferedReader(io.BytesIO(ref.gz(data)), block_size=100 if len(data) < 5000 else 16384)
    if kind == 'limit':
        from warcio.limitreader import LimitReader
        return LimitReader(io.BytesIO(data + b'MORE'), len(data))
    raise ValueError(kind)


def hows(spec):
    """ways to hand over the HTTP headers"""
    if spec.http is None:
        return ['none']
    if spec.rawhead is not None:
        return ['parsed']
    if not spec.http[1] and not spec.http[2]:
        return ['parsed']
    if not spec.http[1]:
        return ['given', 'parsed']
    return ['given', 'parsed']


def build(writer, spec, how='none', kind='bytes', known=True, uid=1, hdict=()):
    from warcio.statusandheaders import StatusAndHeaders
    hd = OrderedDict()
    if not spec.auto:
        hd['WARC-Record-ID'] = RID % uid
        hd['WARC-Date'] = DATE
    for n, v in list(spec.hdict) + list(hdict):
        hd[n] = v
    http = None
    if spec.http is not None and how == 'given':
        http = StatusAndHeaders(spec.http[1], list(spec.http[2]), protocol=spec.http[0])
    payload = spec.payload(how)
    return writer.create_warc_record(spec.uri, spec.rtype, payload=stream(kind, payload) if isinstance(kind, str) else kind, length=len(payload) if known else None,
                                     warc_content_type=spec.ctype or '', warc_headers_dict=hd, http_headers=http)


def expect(spec, version='1.0', uid=1, hdict=(), known=True, head=None):
    """(WARC version, expected (name, value) list as a sorted multiset of lower-case names, block)"""
    head = spec.head if head is None else head
    # a revisit keeps its HTTP headers only
    block = head + spec.kept
    h = []
    given = list(spec.hdict) + list(hdict)
    low = {n.lower(): v for n, v in given}
    for n, v in given:
        n = n.lower()
        if n in ('warc-type', 'warc-target-uri') and (n == 'warc-type' or spec.uri):
            continue
        if n == 'content-type' and spec.ctype:
            continue
        if n in ('warc-block-digest',) and not known:
            continue
        if n == 'warc-payload-digest' and not known and spec.rtype != 'revisit':
            continue
        h.append((n, v))
    h.append(('warc-type', spec.rtype))
    if spec.uri:
        h.append(('warc-target-uri', spec.uri))
    if not spec.auto:
        h.append(('warc-record-id', RID % uid))
        h.append(('warc-date', DATE))
    if 'content-type' not in low or spec.ctype:
        h.append(('content-type', spec.ctype or HTTP_TYPES.get(spec.rtype, 'application/warc-record')))
    h.append(('content-length', str(len(block))))
    if 'warc-block-digest' not in low or not known:
        h.append(('warc-block-digest', ref.sha1_32(block)))
    if spec.rtype not in ('warcinfo', 'revisit') and ('warc-payload-digest' not in low or not known):
        h.append(('warc-payload-digest', ref.sha1_32(spec.body)))
    return 'WARC/' + version, sorted(h), block


AUTO = {'warc-record-id': re.compile(r'<urn:uuid:[0-9a-f]{8}-[0-9a-f]{4}-4[0-9a-f]{3}-[89ab][0-9a-f]{3}-[0-9a-f]{12}>\Z'),
        'warc-date': re.compile(r'\d{4}-\d\d-\d\dT\d\d:\d\d:\d\d(\.\d{6})?Z\Z')}


def norm(headers, spec):
    """lower-cased sorted header list; generated values checked and removed"""
    out = []
    for n, v in headers:
        n = n.lower()
        if spec.auto and n in AUTO:
            require(AUTO[n].match(v), 'generated %s is %s', n, v)
            continue
        out.append((n, v))
    if spec.auto:
        for n in AUTO:
            require(len([1 for m, v in headers if m.lower() == n]) == 1, 'not one %s in %s', n, headers)
    return sorted(out)


def check_written(prec, spec, exp, what=''):
    """a strictly parsed record against what it must be"""
    version, headers, block = exp
    same(prec.version, version, what + 'version')
    same(norm(prec.headers, spec), headers, what + 'WARC headers of %s' % spec.name)
    same(prec.block, block, what + 'block of %s' % spec.name)


def check_read(record, spec, exp, what=''):
    """what the iterator gives for the record"""
    version, headers, block = exp
    same(record.rec_headers.protocol, version, what + 'version read')
    same(record.rec_type, spec.rtype, what + 'type read')
    same(norm(record.rec_headers.headers, spec), headers, what + 'WARC headers read')
    same(record.content_type, dict(headers)['content-type'], what + 'content type read')
    if spec.http is None:
        require(not record.http_headers, what + 'HTTP headers read where none were written: %s', record.http_headers)
    elif spec.http[1] or spec.http[2]:
        same(record.http_headers.protocol, spec.http[0], what + 'HTTP protocol read')
        same(record.http_headers.statusline, spec.http[1], what + 'HTTP status read')
        if any(':' in n for n, v in spec.http[2]):
            pass
        else:
            same([tuple(h) for h in record.http_headers.headers], list(spec.http[2]), what + 'HTTP headers read')
    same(record.raw_stream.read(), spec.kept, what + 'payload read')


def lib_read(data, **kw):
    """the archive as the iterator reads it: list of records with payload attached"""
    from warcio.archiveiterator import ArchiveIterator
    return ArchiveIterator(io.BytesIO(data), **kw)
