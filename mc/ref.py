"""Independent reference encoders and strict parsers for WARC, ARC, HTTP, gzip
and chunked coding.  Nothing here uses warcio."""
import base64
import functools
import hashlib
import zlib

_BASE = hashlib.shake_128(b'warcio-model-checking').digest(1 << 20)
_BASE2 = _BASE * 3


def pat(n, seed=0):
    """n position-dependent bytes (any shift, loss or repetition shows)."""
    off = (seed * 7919) % (1 << 19)
    return _BASE2[off:off + n]


def text(n, seed=0):
    """n bytes of text lines, CRLF and LF endings mixed, some blank lines."""
    out = bytearray()
    i = seed
    while len(out) < n:
        out += b'line %d of text\r\n' % i
        i += 1
        if i % 5 == 0:
            out += b'\n'
        if i % 7 == 0:
            out += b'\r\n'
    return bytes(out[:n])


def warcish(n, seed=0):
    """bytes that look like record boundaries inside a payload."""
    unit = b'\r\n\r\nWARC/1.0\r\nWARC-Type: resource\r\nContent-Length: 3\r\n\r\nabc\r\n\r\n'
    return (unit * (n // len(unit) + 1))[:n]


@functools.lru_cache(5000)
def gz(data, level=9):
    c = zlib.compressobj(level, zlib.DEFLATED, 31)
    return c.compress(data) + c.flush()


def gz_named(data, name=b'file.warc', level=6):
    """a gzip member with FEXTRA, FNAME and FCOMMENT fields."""
    c = zlib.compressobj(level, zlib.DEFLATED, -15)
    raw = c.compress(data) + c.flush()
    head = b'\x1f\x8b\x08' + bytes([4 | 8 | 16]) + b'\x01\x02\x03\x04\x02\x03'
    head += b'\x04\x00extr' + name + b'\0' + b'a comment\0'
    return head + raw + zlib.crc32(data).to_bytes(4, 'little') + (len(data) & 0xffffffff).to_bytes(4, 'little')


def deflate(data, level=6):
    return zlib.compress(data, level)


def rawdeflate(data, level=6):
    c = zlib.compressobj(level, zlib.DEFLATED, -15)
    return c.compress(data) + c.flush()


def br(data):
    import brotli
    return brotli.compress(data)


def compress(kind, data):
    return {'': lambda d: d, 'gzip': gz, 'deflate': deflate, 'rawdeflate': rawdeflate,
            'br': br}[kind](data)


def chunked(data, sizes=None, ext=b'', upper=False, zero=b'0', trailers=b''):
    """chunk-encode data in chunks of the given sizes (cycled)."""
    out = b''
    pos = 0
    i = 0
    sizes = sizes or [len(data) or 1]
    while pos < len(data):
        n = sizes[i % len(sizes)]
        i += 1
        part = data[pos:pos + n]
        h = (b'%X' if upper else b'%x') % len(part)
        out += h + ext + b'\r\n' + part + b'\r\n'
        pos += len(part)
    return out + zero + ext + b'\r\n' + trailers + b'\r\n'


def sha1_32(data):
    return 'sha1:' + base64.b32encode(hashlib.sha1(data).digest()).decode()


def enc(s, charset='utf-8'):
    return s if isinstance(s, bytes) else s.encode(charset)


class Rec(object):
    """One reference record: what is stored and what reading must yield."""

    def __init__(self, fmt, rec_type, headers, httpblock=b'', http=None, body=b'',
                 version='WARC/1.0', content=None, name='', arcline=None, arcpre=b''):
        self.fmt = fmt
        self.rec_type = rec_type
        self.headers = list(headers)
        self.httpblock = httpblock
        self.http = http              # (protocol, statusline, [(n, v)]) or None
        self.body = body
        self.version = version
        self.content = body if content is None else content
        self.name = name
        self.arcline = arcline
        self.arcpre = arcpre

    @property
    def block(self):
        return self.httpblock + self.body

    def stored(self):
        """the record's bytes without the separator to the next one"""
        if self.fmt == 'warc':
            out = enc(self.version) + b'\r\n'
            for n, v in self.headers:
                out += enc(n) + b': ' + enc(v) + b'\r\n'
            return out + b'\r\n' + self.block
        return self.arcline + self.arcpre + self.block

    def sep(self):
        return b'\r\n\r\n' if self.fmt == 'warc' else b'\n'

    def full(self):
        return self.stored() + self.sep()

    def get(self, name):
        for n, v in self.headers:
            if n.lower() == name.lower():
                return v


def warc(rec_type, uri, block=b'', httpblock=b'', http=None, ctype=None, extra=(),
         version='WARC/1.0', content=None, date='2020-01-02T03:04:05Z', uid=1, name=''):
    headers = [('WARC-Type', rec_type),
               ('WARC-Record-ID', '<urn:uuid:00000000-0000-0000-0000-%012d>' % uid)]
    if uri is not None:
        headers.append(('WARC-Target-URI', uri))
    headers.append(('WARC-Date', date))
    headers.extend(extra)
    if ctype:
        headers.append(('Content-Type', ctype))
    headers.append(('Content-Length', str(len(httpblock) + len(block))))
    return Rec('warc', rec_type, headers, httpblock, http, block, version, content, name)


def http_block(first, headers, charset='utf-8', eol=b'\r\n'):
    out = enc(first, charset) + eol
    for n, v in headers:
        out += enc(n, charset) + b': ' + enc(v, charset) + eol
    return out + eol


def w_response(body, uid=1, status='200 OK', headers=None, uri='http://example.com/', content=None,
               proto='HTTP/1.1', charset='utf-8', name='', version='WARC/1.0', extra=(), rtype='response'):
    if headers is None:
        headers = [('Content-Type', 'text/html'), ('X-Empty', ''), ('Content-Length', str(len(body))),
                   ('Set-Cookie', 'a=1; Path=/'), ('Set-Cookie', 'b=2')]
    hb = http_block(proto + ' ' + status, headers, charset)
    return warc(rtype, uri, body, hb, (proto, status, list(headers)),
                'application/http; msgtype=response', uid=uid, content=content, name=name,
                version=version, extra=extra)


def w_request(body=b'', uid=1, method='GET', target='/', headers=None, name='', uri='http://example.com/'):
    if headers is None:
        headers = [('Host', 'example.com'), ('User-Agent', 'mc')]
        if body:
            headers.append(('Content-Length', str(len(body))))
    hb = http_block('%s %s HTTP/1.1' % (method, target), headers)
    return warc('request', uri, body, hb, (method, target + ' HTTP/1.1', list(headers)),
                'application/http; msgtype=request', uid=uid, name=name)


ARC_V1 = b'1 0 InternetArchive\nURL IP-address Archive-date Content-type Archive-length\n'


def arc_header(fname='test.arc', rest=b'\n', ip='0.0.0.0', date='20140216050221', mime='text/plain', spec=ARC_V1, name='arc_header'):
    length = len(spec) + len(rest)
    line = 'filedesc://%s %s %s %s %d\n' % (fname, ip, date, mime, length)
    headers = [('uri', 'filedesc://' + fname), ('ip-address', ip), ('archive-date', date),
               ('content-type', mime), ('length', str(length))]
    return Rec('arc', 'arc_header', headers, b'', None, rest, name=name, arcline=line.encode('utf-8'), arcpre=spec)


def arc_doc(block_body=b'', uri='http://example.com/', httpblock=b'', http=None, ip='93.184.216.119',
            date='20140216050221', mime='text/html', content=None, name='arc_doc', charset='utf-8'):
    length = len(httpblock) + len(block_body)
    line = '%s %s %s %s %d\n' % (uri, ip, date, mime, length)
    headers = [('uri', uri), ('ip-address', ip), ('archive-date', date), ('content-type', mime),
               ('length', str(length))]
    return Rec('arc', 'response', headers, httpblock, http, block_body, content=content, name=name,
               arcline=line.encode(charset))


def arc_response(body, uri='http://example.com/', headers=None, status='200 OK', proto='HTTP/1.0', eol=b'\r\n',
                 content=None, name='arc_response', **kw):
    if headers is None:
        headers = [('Content-Type', 'text/html'), ('Content-Length', str(len(body)))]
    hb = http_block(proto + ' ' + status, headers, eol=eol)
    return arc_doc(body, uri, hb, (proto, status, list(headers)), content=content, name=name, **kw)


# ------------------------------------------------------------------ layouts
def layout(recs, mode='plain', blanks=None, level=9):
    """bytes of the archive and the (offset, length) every record must report.
    mode: plain, gz (member per record), gznamed, gz0 (stored), onegz (whole file
    one member).  blanks: separator override."""
    out = b''
    spans = []
    for r in recs:
        sep = r.sep() if blanks is None else blanks
        start = len(out)
        if mode in ('plain', 'onegz'):
            out += r.stored()
            spans.append((start, len(out) - start))
            out += sep
        else:
            data = r.stored() + sep
            if mode == 'gz':
                m = gz(data, level)
            elif mode == 'gz0':
                m = gz(data, 0)
            elif mode == 'gznamed':
                m = gz_named(data)
            out += m
            spans.append((start, len(m)))
    if mode == 'onegz':
        out = gz(out)
    return out, spans


# ------------------------------------------------------------------ strict parsing of output
class Bad(Exception):
    pass


def gzip_members(data, max_members=10000):
    """[(start, end, bytes)] of a file that must be exactly gzip members."""
    out = []
    pos = 0
    while pos < len(data):
        d = zlib.decompressobj(31)
        try:
            plain = d.decompress(data[pos:]) + d.flush()
        except zlib.error as e:
            raise Bad('not a gzip member at %d: %s' % (pos, e))
        if not d.eof:
            raise Bad('incomplete gzip member at %d' % pos)
        end = len(data) - len(d.unused_data)
        out.append((pos, end, plain))
        pos = end
    return out


class PRec(object):
    def __init__(self, version, headers, block, start, end):
        self.version = version
        self.headers = headers
        self.block = block
        self.start = start
        self.end = end

    def get(self, name):
        vals = [v for n, v in self.headers if n.lower() == name.lower()]
        return vals[0] if vals else None

    def all(self, name):
        return [v for n, v in self.headers if n.lower() == name.lower()]


def parse_warc(data, pos=0):
    """strict parse of an uncompressed WARC byte string."""
    out = []
    while pos < len(data):
        start = pos
        end = data.find(b'\r\n\r\n', pos)
        if end < 0:
            raise Bad('no end of headers at %d' % pos)
        lines = data[pos:end].split(b'\r\n')
        if not lines[0].startswith(b'WARC/'):
            raise Bad('bad version line %r at %d' % (lines[0][:60], pos))
        headers = []
        for ln in lines[1:]:
            n, s, v = ln.partition(b': ')
            if not s and ln.endswith(b':'):
                n, v = ln[:-1], b''
            elif not s:
                raise Bad('bad header line %r at %d' % (ln[:80], pos))
            try:
                headers.append((n.decode('utf-8'), v.decode('utf-8')))
            except UnicodeDecodeError:
                raise Bad('record header not UTF-8 at %d' % pos)
        cl = [v for n, v in headers if n.lower() == 'content-length']
        if len(cl) != 1 or not cl[0].isdigit():
            raise Bad('Content-Length %r at %d' % (cl, pos))
        bstart = end + 4
        bend = bstart + int(cl[0])
        if data[bend:bend + 4] != b'\r\n\r\n':
            raise Bad('record at %d: Content-Length %s is not followed by the terminator but %r' % (
                start, cl[0], data[bend:bend + 20]))
        out.append(PRec(lines[0].decode('utf-8'), headers, data[bstart:bend], start, bend + 4))
        pos = bend + 4
    return out


def parse_written(data, gzip):
    """strict parse of a file written by the library; one member per record."""
    if not gzip:
        return parse_warc(data)
    out = []
    for start, end, plain in gzip_members(data):
        rs = parse_warc(plain)
        if len(rs) != 1:
            raise Bad('gzip member at %d holds %d records' % (start, len(rs)))
        rs[0].start, rs[0].end = start, end
        out.append(rs[0])
    return out


def split_http(block):
    """(head incl. blank line, body) of an HTTP message with CRLF lines"""
    i = block.find(b'\r\n\r\n')
    if i < 0:
        raise Bad('no HTTP header end in %r' % block[:200])
    return block[:i + 4], block[i + 4:]
