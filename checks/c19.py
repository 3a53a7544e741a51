"""C19: every request form, response framing, way of reading and splitting of socket reads,
through the real http.client, urllib3 and requests over a scripted network; compared with the
same script without capture and with the bytes that crossed the socket."""
import functools
import io
import itertools

from mc import capture, fakenet, ref
from mc.core import Out, Violation, require, same

ID = 'C19'
LEVEL = 'exploration'
RULE = ('every request form x every place (host, port, scheme); every response framing x every way of reading x socket read sizes; every position of one socket read boundary; every way of stopping early; '
        'broken and cut-off responses; every keep-alive sequence of 2-3 exchanges, request of the next before or after the end of the previous; '
        'non-trivial: something was recorded')
ASSUMPTIONS = ['HTTP messages have their headers in normal form ("Name: value"), so that recorded headers can be compared byte by byte.',
               'An interim (100 Continue) response, which the client never sees, is not part of the response recorded.',
               'Connections are http.client.HTTPConnection, its subclasses, and the ones of urllib3 and requests; http.client.HTTPSConnection itself, which exists before capture is set up, is out of scope.',
               'If the client stops early, the body recorded is what was received until then.']
SPLITS = [(0,), (1,), (2, 5), (16384,), (40, 0)]
PEERS = {'v4': ('203.0.113.7', 80), 'v6': ('2001:db8::7', 80, 0, 0), 'none': None}
IPS = {'v4': '203.0.113.7', 'v6': '2001:db8::7', 'none': None}
# where the connection goes: host, port given, default port 443?, authority in URIs, host and port as a proxy
PLACES = {
    'plain': ('example.com', None, False, 'http://example.com', 'http://example.com:80'),
    'tls': ('example.com', None, True, 'https://example.com', 'http://example.com:443'),
    'given80': ('example.com', 80, False, 'http://example.com', 'http://example.com:80'),
    'given443': ('example.com', 443, True, 'https://example.com', 'http://example.com:443'),
    'port443': ('example.com', 443, False, 'http://example.com:443', 'http://example.com:443'),
    'tls80': ('example.com', 80, True, 'https://example.com:80', 'http://example.com:80'),
    'port': ('example.com', 8080, False, 'http://example.com:8080', 'http://example.com:8080'),
    'tlsport': ('example.com', 8443, True, 'https://example.com:8443', 'http://example.com:8443'),
    'inhost': ('example.com:81', None, False, 'http://example.com:81', 'http://example.com:81'),
    'port1': ('example.com', 1, False, 'http://example.com:1', 'http://example.com:1'),
    'port8': ('example.com', 8, False, 'http://example.com:8', 'http://example.com:8'),
    'port65535': ('example.com', 65535, True, 'https://example.com:65535', 'http://example.com:65535'),
    'v4': ('192.0.2.1', None, False, 'http://192.0.2.1', 'http://192.0.2.1:80'),
    'v4port': ('192.0.2.1', 8000, False, 'http://192.0.2.1:8000', 'http://192.0.2.1:8000'),
    'v6': ('[::1]', None, False, 'http://[::1]', 'http://[::1]:80'),
    'v6tls': ('[2001:db8::1]', None, True, 'https://[2001:db8::1]', 'http://[2001:db8::1]:443'),
    'v6port': ('[2001:db8::1]:8080', None, False, 'http://[2001:db8::1]:8080', 'http://[2001:db8::1]:8080'),
    'upper': ('Example.COM', None, False, 'http://Example.COM', 'http://Example.COM:80'),
    'local': ('localhost', 3000, False, 'http://localhost:3000', 'http://localhost:3000'),
}
SEQ = [('get', 'len', 'read'), ('post-bytes', 'chunked', 'read7'), ('get', '204', 'read'), ('head', 'head-len', 'read'), ('get', 'len-close', 'into5'),
       ('get', 'http10', 'read'), ('post-file-chunked', 'len-0', 'read'), ('get', 'continue', 'first'), ('get', 'len', 'none'), ('post-big', 'len-big', 'into30000'),
       ('get', 'empty', 'read'), ('abs', 'len', 'read'), ('get', 'cut-len', 'read')]


def BOUNDS(tier):
    return dict(requests=len(fakenet.req_menu()), responses=len(fakenet.resp_menu()), places=len(PLACES), reads=len(fakenet.read_menu()), splits=SPLITS, partial=len(fakenet.partial_menu()),
                broken=len(fakenet.bad_menu()) + len(fakenet.cut_menu()), sequence_length=3 if tier == 'thorough' else 2, sequence_items=len(SEQ))


@functools.lru_cache(None)
def REQ():
    return fakenet.req_menu()


@functools.lru_cache(None)
def RESP():
    m = {k: ('ok', v[0], v[1], v[2]) for k, v in fakenet.resp_menu().items()}
    m.update({k: ('bad', None, v, None) for k, v in fakenet.bad_menu().items()})
    m.update({k: ('cut', None, v, None) for k, v in fakenet.cut_menu().items()})
    # the headers end where the data ends
    m['cut-headers'] = m['cut-headers'][:3] + (m['cut-headers'][2] + b'\r\n\r\n',)
    return m


@functools.lru_cache(None)
def READ():
    m = {k: (True, v) for k, v in fakenet.read_menu().items()}
    m.update({k: (False, v) for k, v in fakenet.partial_menu().items() if k not in m})
    return m


def resps(kind):
    return [k for k, v in RESP().items() if v[0] == kind]


def units(tier):
    T = tier == 'thorough'
    out = [dict(t='req', q=q) for q in REQ()]
    out += [dict(t='resp', r=r, full=T) for r in resps('ok')]
    out += [dict(t='cuts', r=r, full=T) for r in ('len', 'chunked', 'close', 'continue', 'chunked-trailer', 'len-text')]
    out += [dict(t='part', r=r) for r in resps('ok')]
    out += [dict(t='bad', r=r) for r in resps('bad') + resps('cut')]
    out += [dict(t='seq', a=a, n=3 if T else 2) for a in range(len(SEQ))]
    out += [dict(t='over', a=a) for a in range(len(SEQ))]
    out += [dict(t='lib', lib=l) for l in ('urllib3', 'requests')]
    return out


def case(q, r, rd, split=(0,), peer='v4', writer='buf', close='both', rec_ip=True, tls='plain', wrap=False, over=False):
    return ('x', [[q, r, rd]], split, peer, writer, close, rec_ip, tls, wrap, over)


def explore(u, run):
    t = u['t']
    if t == 'req':
        q = u['q']
        r = 'head-len' if q == 'head' else 'len'
        for split in SPLITS:
            run(case(q, r, 'read', split))
        for r in (['head-close', 'head-chunked'] if q == 'head' else ['chunked', 'close', '204', '304', 'continue']):
            run(case(q, r, 'read'))
        for peer in PEERS:
            for rec_ip in (True, False):
                for wrap in (False, True):
                    run(case(q, 'head-len' if q == 'head' else 'len', 'read', (0,), peer, 'buf', 'both', rec_ip, 'plain', wrap))
        for tls in PLACES:
            for rec_ip in (True, False):
                run(case(q, 'head-len' if q == 'head' else 'len', 'read', (0,), 'v4', 'buf', 'both', rec_ip, tls))
        for writer in ('bufgz', '1.1', 'given', 'givengz', 'filter', 'defaults'):
            for tls in ('plain', 'tls'):
                run(case(q, 'head-len' if q == 'head' else 'len', 'read', (0,), 'v4', writer, 'both', True, tls))
    elif t == 'resp':
        r = u['r']
        q = RESP()[r][1] and 'head' or 'get'
        for rd, (full, _) in READ().items():
            for split in SPLITS:
                if len(RESP()[r][2]) > 5000 and (split[0] < 100 or rd in ('into1', 'read1', 'read7', 'into5', 'readline4', 'read1-6')):
                    if not (u['full'] and split == (0,)):
                        continue
                run(case(q, r, rd, split))
    elif t == 'cuts':
        r = u['r']
        for k in range(1, len(RESP()[r][2])):
            for rd in (READ() if u['full'] else ('read', 'into5', 'mixed', 'readline', 'read1-')):
                run(case('get', r, rd, (k, 0)))
                if u['full']:
                    run(case('get', r, rd, (k, 1, 0)))
    elif t == 'part':
        r = u['r']
        q = RESP()[r][1] and 'head' or 'get'
        for rd, (full, _) in READ().items():
            if full and rd not in ('read', 'into5', 'first0'):
                continue
            for split in SPLITS:
                for close in ('both', 'resp', 'conn', 'with', 'conn-resp', 'twice', 'fp', 'gone'):
                    run(case(q, r, rd, split, 'v4', 'buf', close))
    elif t == 'bad':
        for q in ('get', 'head', 'post-big'):
            for rd in READ():
                for split in SPLITS[:4]:
                    if len(RESP()[u['r']][2]) > 5000 and split[0] < 100 and split[0]:
                        continue
                    run(case(q, u['r'], rd, split))
                run(case(q, u['r'], rd, (0,), 'none', 'filter'))
    elif t == 'seq':
        for rest in itertools.product(range(len(SEQ)), repeat=u['n'] - 1):
            seq = [list(SEQ[i]) for i in (u['a'],) + rest]
            for split in ((0,), (3,)):
                if split[0] and any(len(RESP()[s[1]][2]) > 5000 for s in seq):
                    continue
                run(('x', seq, split, 'v4', 'buf', 'resp', True, 'plain', False, False))
    elif t == 'over':
        for b in range(len(SEQ)):
            for split in ((0,), (3,)):
                run(('x', [list(SEQ[u['a']]), list(SEQ[b])], split, 'v4', 'buf', 'resp', True, 'plain', False, True))
    elif t == 'lib':
        for q in LIBREQ:
            for r in resps('ok') + resps('bad') + resps('cut'):
                if r in ('100', 'continue2'):
                    continue
                for rd in LIBREAD[u['lib']]:
                    for split in ((0,), (1,), (16384,)):
                        if len(RESP()[r][2]) > 5000 and split[0] == 1:
                            continue
                        if (RESP()[r][1] == 'HEAD') != (q == 'head'):
                            continue
                        run(('lib', u['lib'], q, r, rd, split))


def run_case(c):
    if c[0] == 'lib':
        return run_lib(*c[1:])
    return run_x(*c[1:])


# ------------------------------------------------------------------ http.client
def script(cls, net, seq, close, tls, over):
    """performs the exchanges; returns the observations"""
    log = []
    host, port, https, _, _ = PLACES[tls]
    c = net.conn(cls, host, port, tls=https)
    held = []

    def finish(resp, fn, close):
        fn(resp, log)
        if close in ('both', 'resp', 'conn-resp', 'twice', 'with'):
            if close == 'conn-resp':
                c.close()
            if close == 'with':
                with resp:
                    pass
            else:
                fakenet.observe(log, 'close', resp.close)
            if close == 'twice':
                fakenet.observe(log, 'close', resp.close)
        if close == 'fp' and resp.fp:
            fakenet.observe(log, 'flush', resp.flush)
            fakenet.observe(log, 'close', resp.close)
        log.append(('closed', resp.isclosed()))

    for n, (q, r, rd) in enumerate(seq):
        fn = READ()[rd][1]
        if fakenet.observe(log, 'request', lambda: REQ()[q][2](c)) is None and log[-1][1] == 'raised':
            c.close()
            continue
        # the previous response may still be unread
        for f in held:
            f()
        held = []
        resp = fakenet.observe(log, 'getresponse', c.getresponse)
        if resp is None:
            # as clients do after an error
            fakenet.observe(log, 'close', c.close)
            continue
        fakenet.describe(resp, log)
        if over and n + 1 < len(seq):
            held.append(lambda resp=resp, fn=fn: finish(resp, fn, close))
        else:
            finish(resp, fn, close)
        if close == 'gone':
            del resp
    for f in held:
        f()
    if close != 'resp' or True:
        fakenet.observe(log, 'conn.close', c.close)
    return log


class Keep(io.BytesIO):
    def close(self):
        pass


def make_context(writer, rec_ip):
    """(context manager, function giving the bytes written, gzip, version)"""
    cap = fakenet.CAP.capture_http
    from warcio.warcwriter import BufferWARCWriter, WARCWriter
    if writer == 'buf':
        w = BufferWARCWriter(gzip=False)
        return cap(w, record_ip=rec_ip), w.get_contents, False, 'WARC/1.0'
    if writer == 'bufgz':
        w = BufferWARCWriter(gzip=True)
        return cap(w, record_ip=rec_ip), w.get_contents, True, 'WARC/1.0'
    if writer == '1.1':
        w = BufferWARCWriter(gzip=False, warc_version='1.1')
        return cap(w, record_ip=rec_ip), w.get_contents, False, 'WARC/1.1'
    if writer in ('given', 'givengz'):
        out = Keep()
        w = WARCWriter(out, gzip=writer == 'givengz')
        return cap(w, None, True, rec_ip), out.getvalue, writer == 'givengz', 'WARC/1.0'
    if writer == 'filter':
        w = BufferWARCWriter(gzip=False)
        return cap(w, lambda req, resp, rec: (req, resp), record_ip=rec_ip), w.get_contents, False, 'WARC/1.0'
    if writer == 'defaults':
        return cap(record_ip=rec_ip), None, False, 'WARC/1.0'
    raise AssertionError(writer)


def nets(seq, split, peer, wrap):
    """a socket per exchange (reconnecting) each of which could serve all the exchanges from it on"""
    data = [RESP()[r][2] for q, r, rd in seq]
    return fakenet.Net(*[fakenet.Sock(data[k:], split, PEERS[peer], wrap) for k in range(len(seq))])


class Track(fakenet.Net):
    """sockets created on demand, serving the responses in order over all of them"""

    def __init__(self, seq, split, peer, wrap):
        super().__init__()
        self.data = [RESP()[r][2] for q, r, rd in seq]
        self.next = 0
        self.split, self.peer, self.wrap = split, PEERS[peer], wrap

    def connect(self, addr, timeout=None, source=None):
        net = self

        class S(fakenet.Sock):
            def makefile(self, *a, **kw):
                self.responses = [b''] * self.asked + [net.data[net.next]]
                net.next += 1
                net.exch.append((self, self.asked))
                return super().makefile(*a, **kw)
        s = S([], self.split, self.peer, self.wrap)
        self.opened.append((addr, s))
        return s

    exch = None


def run_net(cls, c):
    seq, split, peer, writer, close, rec_ip, tls, wrap, over = c
    net = Track(seq, split, peer, wrap)
    net.exch = []
    log = script(cls, net, seq, close, tls, over)
    return net, log


def url_of(q, tls):
    url = REQ()[q][1] or '/'
    if '://' in url.split('?')[0] and url[0] != '/':
        return url, PLACES[tls][4]
    return PLACES[tls][3] + ('' if url == '*' else url), None


def gave(log):
    """body bytes the client got, for each response in order"""
    out = []
    cur = None
    for e in log:
        if e[0] == 'resp':
            cur = 0
            out.append(cur)
        elif out and e[0] in ('read', 'into', 'readline', 'read1', 'iter', 'readlines') or (out and e[0].startswith('read')) or (out and e[0].startswith('into')):
            if len(e) == 2:
                v = e[1]
                if isinstance(v, list):
                    v = b''.join(v)
                if isinstance(v, bytes):
                    out[-1] += len(v)
    return out


def run_x(seq, split, peer, writer, close, rec_ip, tls, wrap, over):
    seq = [tuple(s) for s in seq]
    split = tuple(split)
    args = (seq, split, peer, writer, close, rec_ip, tls, wrap, over)
    base, blog = run_net(fakenet.ORIG, args)
    off, olog = run_net(fakenet.REC, args)
    same(olog, blog, 'client outside of a capture context')
    ctx, contents, gz, version = make_context(writer, rec_ip)
    with ctx as w:
        net, log = run_net(fakenet.REC, args)
    if contents is None:
        contents = w.get_contents
    if log != blog:
        k = next(i for i, (a, b) in enumerate(itertools.zip_longest(log, blog)) if a != b)
        raise Violation('the client observes %r, without capture %r (after %r)' % (log[k:k + 1], blog[k:k + 1], blog[:k][-2:]))
    same([(a, [b for b in s.sent]) for a, s in net.opened], [(a, [b for b in s.sent]) for a, s in base.opened], 'what was sent')
    # which exchanges were completed: the response was accepted and closed
    wants = []
    n = -1
    k = 0
    ends = []
    states = []
    pos = 0
    resp_i = -1
    done = []
    for e in log:
        if e[0] == 'getresponse':
            resp_i += 1
            if len(e) == 2:
                done.append(resp_i)
    got = gave(log)
    exch = net.exch
    # the exchange of each response asked for, in order
    reqs = [s for s, ok in zip(seq, requested(log)) if ok]
    for i, (sock, k) in enumerate(exch):
        if i not in accepted(log):
            continue
        q, r, rd = reqs[i]
        kind, _, data, held = RESP()[r]
        data = held or data
        partial = None
        g = got_of(log, blog, i)
        if kind == 'cut' or not READ()[rd][0] or close == 'gone':
            partial = 0 if 'chunked' in r or 'chunk' in r else g
        uri, proxy = url_of(q, tls)
        wants.append(capture.Want(uri, sock.sent_for(k), data, IPS[peer] if rec_ip else None, proxy, partial))
    capture.check_all(contents(), gz, order(wants, log, over), '', version, ordered=not over)
    return Out((len(wants), len(log)), nontrivial=bool(wants), transitions=len(log), states=[tuple(map(str, log[:i])) for i in range(len(log))] if len(log) < 40 else ())


def requested(log):
    return [len(e) == 2 for e in log if e[0] == 'request']


def accepted(log):
    out = []
    i = -1
    for e in log:
        if e[0] == 'getresponse':
            if e[1] == 'raised' and e[2] == 'ResponseNotReady':
                continue
            i += 1
            if len(e) == 2:
                out.append(i)
    return out


def got_of(log, blog, i):
    acc = accepted(log)
    return gave(log)[acc.index(i)]


def order(wants, log, over):
    return wants


# ------------------------------------------------------------------ urllib3, requests
LIBREQ = {
    'get': ('GET', '/p?q=1', None),
    'head': ('HEAD', '/h', None),
    'post': ('POST', '/post', lambda: b'posted body'),
    'post-file': ('POST', '/post', lambda: io.BytesIO(b'posted file')),
    'post-gen': ('POST', '/post', lambda: iter([b'part one', b'part two'])),
}
LIBREAD = {'urllib3': ['data', 'read', 'read5', 'stream', 'read_chunked', 'readinto', 'release', 'partial', 'nodecode'],
           'requests': ['content', 'text', 'iter', 'lines', 'raw', 'raw5', 'close', 'partial']}


def use_urllib3(q, rd, log):
    import urllib3
    method, url, body = LIBREQ[q]
    pool = urllib3.HTTPConnectionPool('example.com', 80, retries=False)
    obs = fakenet.observe
    try:
        try:
            kw = {}
            if q == 'post-gen':
                kw['chunked'] = True
            r = pool.urlopen(method, url, body() if body else None, headers={'User-Agent': 'u'}, redirect=False, preload_content=rd == 'data', decode_content=rd != 'nodecode', **kw)
        except Exception as e:
            log.append(('raised', type(e).__name__))
            return
        log.append((r.status, r.reason, r.version, list(r.headers.items())))
        if rd == 'data':
            log.append(('data', r.data))
        elif rd in ('read', 'nodecode'):
            obs(log, 'read', r.read)
        elif rd == 'read5':
            fakenet.loop(log, 'read', lambda: r.read(5))
        elif rd == 'stream':
            obs(log, 'stream', lambda: b''.join(r.stream(7)))
        elif rd == 'read_chunked':
            obs(log, 'chunked', lambda: b''.join(r.read_chunked(6)))
        elif rd == 'readinto':
            fakenet.loop(log, 'into', fakenet._into(r, 9))
        elif rd == 'partial':
            obs(log, 'read', lambda: r.read(3))
        obs(log, 'release', r.release_conn)
        obs(log, 'close', r.close)
    finally:
        pool.close()


def use_requests(q, rd, log):
    import requests
    method, url, body = LIBREQ[q]
    obs = fakenet.observe
    s = requests.Session()
    s.trust_env = False
    try:
        try:
            r = s.request(method, 'http://example.com' + url, data=body() if body else None, allow_redirects=False, stream=rd not in ('content', 'text'))
        except Exception as e:
            log.append(('raised', type(e).__name__))
            return
        log.append((r.status_code, r.reason, list(r.headers.items())))
        if rd == 'content':
            obs(log, 'content', lambda: r.content)
        elif rd == 'text':
            obs(log, 'text', lambda: r.text)
        elif rd == 'iter':
            obs(log, 'iter', lambda: list(r.iter_content(6)))
        elif rd == 'lines':
            obs(log, 'lines', lambda: list(r.iter_lines()))
        elif rd == 'raw':
            obs(log, 'raw', lambda: r.raw.read())
        elif rd == 'raw5':
            fakenet.loop(log, 'raw', lambda: r.raw.read(5))
        elif rd == 'partial':
            obs(log, 'raw', lambda: r.raw.read(3))
        obs(log, 'close', r.close)
    finally:
        s.close()


def run_lib(lib, q, r, rd, split):
    import urllib3.connection
    import urllib3.util.connection as uc
    require(issubclass(urllib3.connection.HTTPConnection, fakenet.REC), 'urllib3 is not imported after capture_http')
    seq = [(q, r, rd)]
    use = use_urllib3 if lib == 'urllib3' else use_requests

    def once():
        net = Track(seq, tuple(split), 'v4', False)
        net.data = net.data * 3
        net.exch = []
        log = []
        old = uc.create_connection
        uc.create_connection = lambda addr, *a, **kw: net.connect(addr)
        try:
            use(q, rd, log)
        finally:
            uc.create_connection = old
        return net, log
    base, blog = once()
    ctx, contents, gz, version = make_context('buf', True)
    with ctx as w:
        net, log = once()
    same(norm(log), norm(blog), 'the client observes')
    same([(a, s.sent) for a, s in net.opened], [(a, s.sent) for a, s in base.opened], 'what was sent')
    kind, _, data, held = RESP()[r]
    wants = []
    if log[0][0] != 'raised' or kind != 'bad':
        recs = capture.parse(contents(), gz)
        if log[0][0] == 'raised' and not recs:
            return Out('raised', nontrivial=False)
        full = rd in ('data', 'read', 'stream', 'content', 'text', 'iter', 'lines', 'raw', 'nodecode') and kind == 'ok' and not any(len(e) > 1 and e[1] == 'raised' for e in log)
        sock, k = net.exch[0]
        wants.append(capture.Want('http://example.com' + LIBREQ[q][1], sock.sent_for(k), held or data, '203.0.113.7', None, None if full else 0))
    capture.check_all(contents(), gz, wants)
    return Out((lib, len(wants), len(log)), nontrivial=bool(wants), transitions=len(log))


def norm(log):
    import re
    return [tuple(re.sub(r'0x[0-9a-f]+', '0x', x) if isinstance(x, str) else x for x in e) for e in log]
