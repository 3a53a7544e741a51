"""A scripted network for http.client: connections whose sockets record what is sent and
deliver prepared responses, cut into reads as told.  Nothing leaves the process."""
import array
import http.client
import io

_REAL = http.client.HTTPConnection
import warcio.capture_http as CAP            # replaces http.client.HTTPConnection

ORIG = CAP.orig_connection
assert http.client.HTTPConnection is not ORIG and _REAL in (ORIG, http.client.HTTPConnection)
REC = http.client.HTTPConnection


class Raw(io.RawIOBase):
    """Delivers one response; split: sizes of successive reads (last repeats, 0 = all)."""

    def __init__(self, sock, data, split, fault=None):
        self._sock = sock
        self._d = data
        self._p = 0
        self._s = list(split) or [0]
        self._i = 0
        self._fault = fault

    def readable(self):
        return True

    def readinto(self, b):
        if self._p >= len(self._d) and self._fault:
            raise self._fault
        n = self._s[min(self._i, len(self._s) - 1)] or len(b)
        self._i += 1
        n = min(n, len(b), len(self._d) - self._p)
        b[:n] = self._d[self._p:self._p + n]
        self._p += n
        self._sock.delivered = self._sock.delivered + bytes(b[:n])
        return n


class Wrapped(object):
    """what some TLS libraries put around a socket"""

    def __init__(self, sock):
        self.socket = sock


class Sock(object):
    """responses: one bytes object for each response read from this socket."""

    def __init__(self, responses, split=(0,), peer=('203.0.113.7', 80), wrap=False, fault=None, hook=None):
        self.responses = list(responses)
        self.split = split
        self.peer = peer
        self.wrap = wrap
        self.fault = fault
        self.sent = []            # (what number of responses were asked for before, bytes)
        self.asked = 0
        self.delivered = b''
        self.closed = 0
        self.hook = hook

    def sendall(self, data):
        if isinstance(data, array.array):
            b = data.tobytes()
        else:
            try:
                b = bytes(memoryview(data))
            except TypeError:
                raise TypeError('a bytes-like object is required, not %r' % type(data).__name__)
        if self.hook:
            self.hook('send')
        self.sent.append((self.asked, b))

    def makefile(self, mode='rb', *a, **kw):
        n = self.asked
        self.asked += 1
        data = self.responses[n] if n < len(self.responses) else b''
        if self.hook:
            self.hook('recv')
        raw = Raw(Wrapped(self) if self.wrap else self, data, self.split, self.fault)
        raw._sock.delivered = b''
        return io.BufferedReader(raw)

    def getpeername(self):
        if self.peer is None:
            raise OSError(107, 'Transport endpoint is not connected')
        return self.peer

    def sent_for(self, n):
        return b''.join(b for k, b in self.sent if k == n)

    def setsockopt(self, *a):
        pass

    def settimeout(self, *a):
        pass

    def shutdown(self, *a):
        pass

    def close(self):
        self.closed += 1


class Net(object):
    """Hands out the given sockets to connections in the order they are opened."""

    def __init__(self, *socks):
        self.socks = list(socks)
        self.opened = []

    def connect(self, addr, timeout=None, source=None):
        s = self.socks[len(self.opened)]
        self.opened.append((addr, s))
        return s

    def conn(self, cls, host='example.com', port=None, tunnel=None, tls=False, **kw):
        if tls:
            cls = tls_class(cls)
        c = cls(host, port, **kw)
        c._create_connection = self.connect
        if tunnel:
            c.set_tunnel(*tunnel)
        return c


_TLS = {}


def tls_class(cls):
    """a connection class with port 443 as default (no encryption)"""
    if cls not in _TLS:
        _TLS[cls] = type('TLS' + cls.__name__, (cls,), {'default_port': 443})
    return _TLS[cls]


# ------------------------------------------------------------------ client scripts
class LineFile(io.BytesIO):
    pass


BIG = 40000


def big(n=BIG, k=1):
    from mc import ref
    return ref.pat(n, k)


# request targets: of the server itself, and as sent to a proxy
TARGETS = ['/a?url=http://other/x?url=y', '/a//b', '//x/y', '/a;p=1?b', '/%7Ea%20b%2F', '/a:80/', '/?', '/a?b=1?c=://', '?q=1', "/a'b(c)*!$&+,=@~", '/../b/./', '/a|b"<>^`{}\\',
           'http://target.example:80/x', 'https://target.example:443/x', 'http://target.example:080/', 'http://user:pw@target.example/x', 'http://Target.EXAMPLE/', 'http://target.example',
           'http://target.example?q', 'http://target.example/?url=http://other/', 'http://[2001:db8::9]:80/x', 'http://target.example./x', 'HTTPS://target.example/', 'http://target.example//x/../y',
           'ftp://target.example/x', 'urn://x?y'] + ['/' + c * n for n in (255, 260, 1020, 4096, 8192, 16384, 20000) for c in 'a/'] + ['http://target.example/?' + 'q' * 20000]


class ShortFile(io.BytesIO):
    """delivers few bytes at a time"""
    def read(self, n=-1):
        return io.BytesIO.read(self, 3 if n is None or n < 0 or n > 3 else n)


def req_menu():
    """name -> (method, fn(conn)) performing one request"""
    def r(method, url='/p?q=1', body=None, headers=None, **kw):
        def fn(c):
            c.request(method, url, body=body() if callable(body) else body, headers=dict(headers or {}), **kw)
        return (method, url, fn)

    def manual(c):
        c.putrequest('POST', '/m', skip_accept_encoding=True)
        c.putheader('Content-Length', '5')
        c.putheader('X-A', 'b')
        c.putheader('X-A', 'c')
        c.endheaders(b'hello')

    def sends(*parts):
        def fn(c):
            c.putrequest('PUT', '/s')
            c.putheader('Content-Length', str(10))
            c.endheaders()
            for p in parts:
                c.send(p() if callable(p) else p)
        return ('PUT', '/s', fn)

    m = {
        'get': r('GET'),
        'get-root': r('GET', '/'),
        'get-empty-url': r('GET', ''),
        'get-headers': r('GET', headers={'X-One': '1', 'Cookie': 'a=b; c=d', 'User-Agent': 'x y'}),
        'get-host': r('GET', headers={'Host': 'other.example'}),
        'head': r('HEAD'),
        'delete': r('DELETE'),
        'options-star': r('OPTIONS', '*'),
        'propfind': r('PROPFIND', body=b'<x/>'),
        'getx': r('GETX'),
        'lower': r('get'),
        'abs': r('GET', 'http://target.example/x?y'),
        'abs-https': r('GET', 'https://target.example:8443/x'),
        'abs-upper': r('GET', 'HTTP://target.example/x'),
        'query-url': r('GET', '/r?u=http://other/&b=GET'),
        'post-bytes': r('POST', body=b'a=1&b=2'),
        'post-str': r('POST', body='a=caf\xe9'),
        'post-empty': r('POST', body=b''),
        'post-none': r('POST'),
        'post-binary': r('POST', body=bytes(range(256)) + b'\r\n\r\nHTTP/1.1 200 OK\r\n\r\n'),
        'post-file': r('POST', body=lambda: io.BytesIO(b'file body ' * 10), headers={'Content-Length': '100'}),
        'post-file-chunked': r('POST', body=lambda: io.BytesIO(b'file body ' * 10)),
        'post-textfile': r('POST', body=lambda: io.StringIO('text \xe9\n'), headers={'Content-Length': '7'}),
        'post-iter': r('POST', body=lambda: iter([b'one', b'', b'two']), headers={'Content-Length': '6'}),
        'post-iter-chunked': r('POST', body=lambda: iter([b'one', b'', b'two']), encode_chunked=True, headers={'Transfer-Encoding': 'chunked'}),
        'post-iter-auto': r('POST', body=lambda: [b'one', b'two', b'three']),
        'post-array': r('POST', body=lambda: array.array('B', b'array body')),
        'post-array-h': r('POST', body=lambda: array.array('H', [1, 2, 3, 4])),
        'post-view': r('POST', body=lambda: memoryview(b'memory view')),
        'post-bytearray': r('POST', body=lambda: bytearray(b'byte array')),
        'post-big': r('POST', body=lambda: big()),
        'post-bigfile': r('POST', body=lambda: io.BytesIO(big()), headers={'Content-Length': str(BIG)}),
        'post-crlf': r('POST', body=b'\r\n\r\n'),
        'manual': ('POST', '/m', manual),
        'send-two': sends(b'01234', b'56789'),
        'send-file': sends(lambda: io.BytesIO(b'0123456789')),
        'send-file-short': sends(lambda: ShortFile(b'0123456789')),
        'post-file-short': r('POST', body=lambda: ShortFile(b'file body ' * 10), headers={'Content-Length': '100'}),
        'send-text': sends(lambda: io.StringIO('01234567\xe99')),
        'send-iter': sends(lambda: iter([b'0123', b'456789'])),
        'send-tuple': sends((b'0123', b'456789')),
        'send-array': sends(lambda: array.array('H', [1, 2, 3, 4, 5])),
        'send-view': sends(memoryview(b'0123456789')),
        'send-empty': sends(b'', b'0123456789', b''),
    }
    for t in TARGETS:
        m['to ' + t] = r('GET', t)
    return m


def H(status, *headers):
    return (status + '\r\n' + ''.join(h + '\r\n' for h in headers) + '\r\n').encode('latin-1')


def resp_menu():
    """name -> (method it belongs to or None, bytes, the part the record holds (None: all))"""
    from mc import ref
    b8 = b'the body'
    bigb = ref.pat(50000, 3)
    text = b'line one\r\nline two\n\nlast line without end'
    h100 = H('HTTP/1.1 100 Continue')
    h200 = H('HTTP/1.1 200 OK', 'Content-Length: 8') + b8
    m = {
        'len': (None, h200, None),
        'len-0': (None, H('HTTP/1.1 200 OK', 'Content-Length: 0'), None),
        'len-1': (None, H('HTTP/1.1 200 OK', 'Content-Length: 1') + b'x', None),
        'len-text': (None, H('HTTP/1.1 404 Not Found', 'Content-Type: text/plain', 'Content-Length: %d' % len(text)) + text, None),
        'len-big': (None, H('HTTP/1.1 200 OK', 'Content-Length: 50000') + bigb, None),
        'len-close': (None, H('HTTP/1.1 200 OK', 'Content-Length: 8', 'Connection: close') + b8, None),
        'http10': (None, H('HTTP/1.0 200 OK', 'Server: x') + text, None),
        'http10-keep': (None, H('HTTP/1.0 200 OK', 'Connection: keep-alive', 'Content-Length: 8') + b8, None),
        'http09': (None, H('HTTP/0.9 200 OK') + b8, None),
        'http12': (None, H('HTTP/1.2 200 OK', 'Content-Length: 8') + b8, None),
        'noreason': (None, b'HTTP/1.1 200\r\nContent-Length: 8\r\n\r\n' + b8, None),
        'reason-long': (None, H('HTTP/1.1 299 Some: odd reason  here', 'Content-Length: 8') + b8, None),
        'close': (None, H('HTTP/1.1 200 OK', 'Connection: close') + text, None),
        'close-empty': (None, H('HTTP/1.1 200 OK', 'Connection: close'), None),
        'close-big': (None, H('HTTP/1.1 200 OK', 'Connection: close') + bigb, None),
        'noheaders': (None, b'HTTP/1.1 200 OK\r\n\r\n' + text, None),
        '204': (None, H('HTTP/1.1 204 No Content', 'X-A: b'), None),
        '304': (None, H('HTTP/1.1 304 Not Modified', 'ETag: "x"'), None),
        '302': (None, H('HTTP/1.1 302 Found', 'Location: http://example.com/next', 'Content-Length: 0'), None),
        '500': (None, H('HTTP/1.1 500 Internal Server Error', 'Content-Length: 8') + b8, None),
        'chunked': (None, H('HTTP/1.1 200 OK', 'Transfer-Encoding: chunked') + ref.chunked(text, [5, 1, 30]), None),
        'chunked-empty': (None, H('HTTP/1.1 200 OK', 'Transfer-Encoding: chunked') + b'0\r\n\r\n', None),
        'chunked-trailer': (None, H('HTTP/1.1 200 OK', 'Transfer-Encoding: chunked') + ref.chunked(text, [7], trailers=b'X-T: v\r\n'), None),
        'chunked-ext': (None, H('HTTP/1.1 200 OK', 'Transfer-Encoding: chunked') + ref.chunked(text, [40], ext=b';a=b', upper=True), None),
        'chunked-big': (None, H('HTTP/1.1 200 OK', 'Transfer-Encoding: chunked') + ref.chunked(bigb, [20000, 16384, 1]), None),
        'chunked-close': (None, H('HTTP/1.1 200 OK', 'Transfer-Encoding: chunked', 'Connection: close') + ref.chunked(text, [6]), None),
        'gzip': (None, H('HTTP/1.1 200 OK', 'Content-Encoding: gzip', 'Content-Length: %d' % len(ref.gz(text))) + ref.gz(text), None),
        'repeat': (None, H('HTTP/1.1 200 OK', 'Set-Cookie: a=1', 'Set-Cookie: b=2', 'content-length: 8') + b8, None),
        'crlfs': (None, H('HTTP/1.1 200 OK', 'Content-Length: 12') + b'\r\n\r\n\n\n\r\n\r\n', None),
        'likeresp': (None, H('HTTP/1.1 200 OK', 'Content-Length: %d' % len(h200)) + h200, None),
        'continue': (None, h100 + h200, h200),
        'continue2': (None, h100 + H('HTTP/1.1 100 Continue', 'X-I: 1') + h200, h200),
        'head-len': ('HEAD', H('HTTP/1.1 200 OK', 'Content-Length: 12345'), None),
        'head-chunked': ('HEAD', H('HTTP/1.1 200 OK', 'Transfer-Encoding: chunked'), None),
        'head-close': ('HEAD', H('HTTP/1.1 200 OK', 'Connection: close'), None),
    }
    return m


def bad_menu():
    """responses no client accepts: nothing is completed"""
    return {
        'empty': b'',
        'garbage': b'\x00\x01\x02garbage\r\n\r\n',
        'notHTTP': b'SSH-2.0-x\r\n',
        'cut-status': b'HTTP/1.',
        'badcode': b'HTTP/1.1 99999 X\r\n\r\n',
        'badcode2': b'HTTP/1.1 abc X\r\n\r\n',
        'longline': b'HTTP/1.1 200 ' + b'x' * 70000 + b'\r\n\r\n',
        'manyheaders': b'HTTP/1.1 200 OK\r\n' + b'A: b\r\n' * 150 + b'\r\n',
        'http2': b'HTTP/2 200 OK\r\n\r\n',
    }


def cut_menu():
    """responses cut off by the peer: the client gets what there is, or an error"""
    text = b'0123456789' * 4
    return {
        'cut-len': H('HTTP/1.1 200 OK', 'Content-Length: 100') + text,
        'cut-chunk': H('HTTP/1.1 200 OK', 'Transfer-Encoding: chunked') + b'50\r\n' + text,
        'cut-chunks': H('HTTP/1.1 200 OK', 'Transfer-Encoding: chunked') + b'28\r\n' + text + b'\r\n',
        'bad-chunk': H('HTTP/1.1 200 OK', 'Transfer-Encoding: chunked') + b'28\r\n' + text + b'\r\nzz\r\nabc',
        'cut-headers': b'HTTP/1.1 200 OK\r\nContent-Type: text/pl',
    }


def observe(log, what, fn):
    try:
        r = fn()
    except Exception as e:
        log.append((what, 'raised', type(e).__name__, str(e)))
        return None
    if isinstance(r, (memoryview, bytearray)):
        r = bytes(r)
    log.append((what, r if isinstance(r, (bytes, int, str, list, tuple, type(None), bool)) else '...'))
    return r


class Stop(Exception):
    pass


def loop(log, what, fn, limit=200000):
    """call fn until it returns something empty (several times), or raises"""
    for _ in range(limit):
        r = observe(log, what, fn)
        if not r:
            return
    raise Stop('no end')


def _into(resp, n):
    def fn():
        buf = bytearray(b'\xee' * n)
        k = resp.readinto(buf)
        return bytes(buf[:k])
    return fn


def read_menu():
    """name -> fn(resp, log): ways to read a response to its end and (or) close it"""
    def readn(n):
        return lambda resp, log: loop(log, 'read%d' % n, lambda: resp.read(n))

    def first_then(n):
        def fn(resp, log):
            observe(log, 'read%d' % n, lambda: resp.read(n))
            observe(log, 'read', resp.read)
        return fn

    def mixed(resp, log):
        observe(log, 'readline', resp.readline)
        observe(log, 'read3', lambda: resp.read(3))
        observe(log, 'into', _into(resp, 4))
        observe(log, 'readline5', lambda: resp.readline(5))
        observe(log, 'read', resp.read)

    def peeks(resp, log):
        observe(log, 'peek', lambda: len(resp.peek(4)) > 0)
        observe(log, 'read2', lambda: resp.read(2))
        observe(log, 'peek', lambda: len(resp.peek()) > 0)
        observe(log, 'read', resp.read)

    def iterate(resp, log):
        observe(log, 'iter', lambda: list(resp))

    def readlines(resp, log):
        observe(log, 'readlines', resp.readlines)

    return {
        'read': lambda resp, log: observe(log, 'read', resp.read),
        'read-none': lambda resp, log: observe(log, 'read', lambda: resp.read(None)),
        'read1': readn(1),
        'read7': readn(7),
        'read20000': readn(20000),
        'first': first_then(3),
        'first0': first_then(0),
        'into1': lambda resp, log: loop(log, 'into', _into(resp, 1)),
        'into5': lambda resp, log: loop(log, 'into', _into(resp, 5)),
        'into30000': lambda resp, log: loop(log, 'into', _into(resp, 30000)),
        'into-huge': lambda resp, log: loop(log, 'into', _into(resp, 200000)),
        'readline': lambda resp, log: loop(log, 'readline', resp.readline),
        'readline4': lambda resp, log: loop(log, 'readline', lambda: resp.readline(4)),
        'read1-': lambda resp, log: loop(log, 'read1', resp.read1),
        'read1-6': lambda resp, log: loop(log, 'read1', lambda: resp.read1(6)),
        'peek': peeks,
        'mixed': mixed,
        'iter': iterate,
        'readlines': readlines,
    }


def partial_menu():
    """ways that stop before the end"""
    def some(n):
        return lambda resp, log: observe(log, 'read%d' % n, lambda: resp.read(n))
    return {
        'none': lambda resp, log: None,
        'some1': some(1),
        'some5': some(5),
        'into3': lambda resp, log: observe(log, 'into', _into(resp, 3)),
        'line': lambda resp, log: observe(log, 'readline', resp.readline),
        'peek': lambda resp, log: observe(log, 'peek', lambda: len(resp.peek(2)) > 0),
        'one1': lambda resp, log: observe(log, 'read1', lambda: resp.read1(2)),
    }


def describe(resp, log):
    log.append(('resp', resp.status, resp.reason, resp.version, resp.getheaders(), resp.isclosed(), resp.will_close, resp.length, resp.chunked))
