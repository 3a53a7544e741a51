"""C20: every interleaving of the steps of two or three exchanges (several connection kinds)
and of entering and leaving capture contexts, through the real http.client over a scripted
network; each exchange must be recorded as if it had been the only one."""
import functools
import itertools

from mc import capture, fakenet, ref
from mc.core import Out, Violation, require, same

ID = 'C20'
LEVEL = 'exploration'
RULE = ('every interleaving of the steps (open, request, response, read, close) of 2-3 exchanges x every pair of connection kinds, with the capture contexts around; '
        'every interleaving of 2 exchanges with the enters and leaves of every context structure; every filter decision for every exchange; non-trivial: something was recorded')
ASSUMPTIONS = ['A connection belongs to the innermost context active in its thread when it is created, also after that context has ended (the existing tests pin this).',
               'A filter that leaves the pair unread gets it written; the filter does not consume the streams.']

B = 8


def msg(n, extra=()):
    body = b'body of exchange %d' % n
    return fakenet.H('HTTP/1.1 200 OK', 'X-N: %d' % n, 'Content-Length: %d' % len(body), *extra) + body


def chunkmsg(n):
    return fakenet.H('HTTP/1.1 200 OK', 'X-N: %d' % n, 'Transfer-Encoding: chunked') + ref.chunked(b'chunked body %d' % n, [5])


CONNECT_OK = fakenet.H('HTTP/1.1 200 Connection established', 'Via: proxy')
CONNECT_NO = fakenet.H('HTTP/1.1 403 Forbidden', 'Content-Length: 0')

# kind -> (host, port, tls class, tunnel, request target, URI, proxy)
KINDS = {
    'http': ('example.com', None, False, None, '/{n}', 'http://example.com/{n}', None),
    'port': ('example.com', 8080, False, None, '/{n}', 'http://example.com:8080/{n}', None),
    'tls': ('example.com', None, True, None, '/{n}', 'https://example.com/{n}', None),
    'port443': ('example.com', 443, False, None, '/{n}', 'http://example.com:443/{n}', None),
    'tlsport': ('example.com', 80, True, None, '/{n}', 'https://example.com:80/{n}', None),
    'v6': ('[2001:db8::1]', None, False, None, '/{n}', 'http://[2001:db8::1]/{n}', None),
    'v6port': ('2001:db8::1', 8080, False, None, '/{n}', 'http://[2001:db8::1]:8080/{n}', None),
    'proxy': ('proxy.example', 3128, False, None, 'http://target.example/{n}', 'http://target.example/{n}', 'http://proxy.example:3128'),
    'proxy2': ('proxy2.example', 80, False, None, 'http://target2.example:81/{n}', 'http://target2.example:81/{n}', 'http://proxy2.example:80'),
    'proxy80': ('proxy.example', 3128, False, None, 'http://target.example:80/{n}?u=http://other:80/', 'http://target.example:80/{n}?u=http://other:80/', 'http://proxy.example:3128'),
    'proxy6': ('2001:db8::2', 3128, False, None, 'http://target.example/{n}', 'http://target.example/{n}', 'http://[2001:db8::2]:3128'),
    'tunnel': ('proxy.example', 3128, True, ('target.example', 443), '/{n}', 'https://target.example/{n}', 'https://proxy.example:3128'),
    'tunnel2': ('proxy2.example', 3129, True, ('target2.example', 8443), '/{n}', 'https://target2.example:8443/{n}', 'https://proxy2.example:3129'),
    'tunnelplain': ('proxy.example', 3128, False, ('target.example', 443), '/{n}', 'http://target.example:443/{n}', 'https://proxy.example:3128'),
    'tunnel6': ('proxy.example', 3128, True, ('2001:db8::3', 443), '/{n}', 'https://[2001:db8::3]/{n}', 'https://proxy.example:3128'),
    'tunnelx': ('proxy.example', 3128, True, ('target.example', 443), '/{n}', None, 'https://proxy.example:3128'),      # refused by the proxy
    'tunnelearly': ('proxy.example', 3128, True, ('target.example', 443), '/{n}', 'https://target.example/{n}', 'https://proxy.example:3128'),
}
PEERS = {k: ('198.51.100.%d' % i, 80) for i, k in enumerate(KINDS, 1)}
MAIN = ['http', 'tls', 'proxy', 'tunnel', 'tunnelearly', 'tunnelx', 'v6']
# steps: O open the connection, C connect, Q request, G get the response, r read a part, D read the rest and close the response
STEPS = {'four': 'OQGD', 'five': 'OQGrD', 'keep': 'OQGDQGD', 'over': 'OQGQDGD', 'part': 'OQGrX', 'three': 'OQR', 'two': 'OE', 'reconn': 'OQGDXQGD', 'lost': 'OQX', 'cut': 'OQGX'}
STRUCT = {
    'one': 'A a', 'nested': 'A B b a', 'next': 'A a B b', 'nested-same': 'A A2 a2 a', 'again': 'A a A2 a2', 'deep': 'A B C c b a', 'two-in': 'A B b C c a', 'in-next': 'A B b a C c',
}
FILTERS = ['pass', 'none', 'onlyreq', 'onlyresp', 'revisit', 'own', 'raise', 'header']


def BOUNDS(tier):
    T = tier == 'thorough'
    return dict(kinds=len(KINDS), pair_interleavings='all, every ordered pair of kinds' if T else 'all, every pair of %d kinds and each kind with itself' % len(MAIN), triples='all interleavings of 3 x 3 steps' if not T else '3 x 4 steps',
                structures=STRUCT, filters=FILTERS)


def units(tier):
    T = tier == 'thorough'
    out = []
    for a in KINDS:
        out.append(dict(t='alone', a=a))
    for a in KINDS:
        for b in KINDS:
            if T or a == b or (a in MAIN and b in MAIN):
                for s in (('four', 'four'), ('five', 'five'), ('keep', 'four'), ('over', 'four')) if T else (('four', 'four'), ('keep', 'three'), ('over', 'three')):
                    out.append(dict(t='pair', a=a, b=b, s=s))
    for trip in (('http', 'proxy', 'tunnel'), ('tunnel', 'tunnel2', 'tls'), ('tunnelearly', 'http', 'http'), ('proxy', 'proxy2', 'port')):
        out.append(dict(t='triple', k=trip, s='four' if T else 'three'))
    for st in STRUCT:
        for a, b in ((('http', 'http'), ('tunnel', 'http'), ('proxy', 'tunnelearly'), ('http', 'proxy')) if T else (('http', 'tunnel'), ('http', 'http'))):
            out.append(dict(t='ctx', st=st, a=a, b=b, s='four' if T else 'three'))
            out.append(dict(t='ctx', st=st, a=a, b=b, s='two'))
    for a in KINDS:
        out.append(dict(t='filter', a=a))
    out.append(dict(t='exit'))
    return out


def merges(*seqs):
    """all interleavings of the sequences, as sequences of (index of sequence)"""
    total = sum(len(s) for s in seqs)

    def rec(pos, acc):
        if len(acc) == total:
            yield tuple(acc)
            return
        for i in range(len(seqs)):
            if pos[i] < len(seqs[i]):
                pos[i] += 1
                acc.append(i)
                yield from rec(pos, acc)
                acc.pop()
                pos[i] -= 1
    yield from rec([0] * len(seqs), [])


def explore(u, run):
    t = u['t']
    if t == 'alone':
        for s in STEPS:
            for fmt in ('', 'gz', '1.1'):
                for close in (0,):
                    run(('run', 'A a', [(u['a'], s)], [1] + [0] * len(STEPS[s]) + [1], fmt, None, close))
            run(('run', '', [(u['a'], s)], [0] * len(STEPS[s]), '', None, 0))
    elif t == 'pair':
        s = u['s']
        for m in merges(STEPS[s[0]], STEPS[s[1]]):
            run(('run', 'A a', [(u['a'], s[0]), (u['b'], s[1])], (2,) + m + (2,), '', None, 0))
    elif t == 'triple':
        st = STEPS[u['s']]
        for m in merges(st, st, st):
            run(('run', 'A a', [(k, u['s']) for k in u['k']], (3,) + m + (3,), '', None, 0))
    elif t == 'ctx':
        st = STEPS[u['s']]
        ev = STRUCT[u['st']].split()
        for m in merges(st, st, ev):
            run(('run', STRUCT[u['st']], [(u['a'], u['s']), (u['b'], u['s'])], m, '', None, 0))
    elif t == 'filter':
        for s in ('four', 'keep', 'over'):
            for f in itertools.product(FILTERS, repeat=2):
                run(('run', 'A a', [(u['a'], s), ('http', 'four')], (2, 0, 1) + (0,) * (len(STEPS[s]) - 1) + (1, 1, 1, 2), '', list(f), 0))
    elif t == 'exit':
        for st in STRUCT:
            for k in range(len(STRUCT[st].split())):
                for exc in ('ValueError', 'KeyboardInterrupt', 'GeneratorExit'):
                    run(('exit', st, k, exc))


def run_case(c):
    if c[0] == 'exit':
        return run_exit(*c[1:])
    return run_hist(*c[1:])


class Exch(object):
    """performs its steps one by one; knows what is to be recorded"""

    def __init__(self, idx, kind, steps):
        self.idx = idx
        self.kind = kind
        self.steps = STEPS[steps]
        self.pos = 0
        self.num = 0              # requests made
        self.n = None
        host, port, tls, tunnel, self.target, self.uri, self.proxy = KINDS[kind]
        self.args = (host, port, tls, tunnel)
        self.sock = None
        self.log = []
        self.cur = None           # index of the request whose response is held
        self.ctx = None
        self.done = []            # exchanges completed: (n, partial)
        self.queue = []           # requests whose responses are to be got

    def name(self, k):
        return self.idx * 10 + k

    def resp(self, k):
        n = self.name(k)
        return chunkmsg(n) if (self.idx + k) % 2 else msg(n)

    def open(self):
        host, port, tls, tunnel = self.args
        e = self

        class N(fakenet.Net):
            def connect(self, addr, timeout=None, source=None):
                rs = []
                if tunnel:
                    rs.append(CONNECT_NO if e.kind == 'tunnelx' else CONNECT_OK)
                rs += [e.resp(k) for k in range(e.num - (0 if e.kind == 'tunnelearly' and e.early else 1), 5)]
                s = fakenet.Sock(rs, (0,), PEERS[e.kind])
                self.opened.append((addr, s))
                e.socks.append(s)
                return s
        self.socks = []
        self.early = True
        self.conn = N().conn(fakenet.REC, host, port, tunnel, tls)
        if self.kind == 'tunnelearly':
            self.conn.connect()
        self.early = False

    def step(self):
        st = self.steps[self.pos]
        self.pos += 1
        for s in {'E': 'QGD', 'R': 'GD'}.get(st, st):
            self.one(s)

    def one(self, s):
        if s == 'O':
            self.open()
        elif s == 'Q':
            n = self.name(self.num)
            self.num += 1
            try:
                self.conn.request('POST' if n % 2 else 'GET', self.target.format(n=n), body=b'sent %d' % n if n % 2 else None)
                if self.kind == 'tunnelx':
                    raise Violation('the refused tunnel is not noticed')
                sock = self.socks[-1]
                self.queue.append((n, sock, sock.asked))
            except OSError as e:
                if self.kind != 'tunnelx' or 'Tunnel connection failed: 403' not in str(e):
                    raise
        elif s == 'G':
            if self.queue:
                self.n, self.rsock, k = self.queue.pop(0)
                self.held = self.conn.getresponse()
                self.cur = self.held
                self.k = k
                same(self.held.status, 200, 'status')
                same(self.held.getheader('X-N'), str(self.n), 'the response of exchange')
        elif s == 'r':
            if self.cur:
                self.got = self.cur.read(3)
        elif s == 'D':
            if self.cur:
                body = getattr(self, 'got', b'') + self.cur.read()
                same(body, b'chunked body %d' % self.n if b'chunked' in self.resp(self.n - self.idx * 10) else b'body of exchange %d' % self.n, 'the body the client gets')
                self.cur.close()
                self.finish(None)
        elif s == 'X':
            self.conn.close()
            if self.cur:
                self.finish(0)
            self.queue = []

    def finish(self, partial):
        self.cur = None
        self.got = b''
        self.done.append(self.n)
        self.on_done(self, self.n, capture.Want(self.uri.format(n=self.n), self.rsock.sent_for(self.k), self.resp(self.n - self.idx * 10), PEERS[self.kind][0], self.proxy, partial))


class Boom(Exception):
    pass


def run_hist(struct, exchs, order, fmt, filters, close):
    from warcio.warcwriter import BufferWARCWriter
    cap = fakenet.CAP.capture_http
    ev = struct.split()
    writers = {}
    wants = {}
    stack = []
    seen = []

    def writer(name):
        if name not in writers:
            writers[name] = BufferWARCWriter(gzip=fmt == 'gz', warc_version='1.1' if fmt == '1.1' else None)
            wants[name] = []
        return writers[name]

    def filt(req, resp, rec):
        i = 1 if '/1' in resp.rec_headers.get_header('WARC-Target-URI')[-3:] and resp.rec_headers.get_header('WARC-Target-URI')[-2:].isdigit() else 0
        f = filters[i]
        seen.append((rec.url, req.rec_headers.get_header('WARC-Target-URI'), resp.rec_headers.get_header('WARC-Target-URI'), resp.http_headers.get_header('X-N'), req.rec_type, resp.rec_type))
        if f == 'none':
            return None, None
        if f == 'onlyreq':
            return req, None
        if f == 'onlyresp':
            return None, resp
        if f == 'raise':
            raise Boom('filter')
        if f == 'revisit':
            return req, writers['A'].create_revisit_record(resp.rec_headers.get_header('WARC-Target-URI'), resp.rec_headers.get_header('WARC-Payload-Digest'), 'http://orig/', '2020-01-01T00:00:00Z', http_headers=resp.http_headers)
        if f == 'own':
            resp.rec_headers.add_header('X-Filter', rec.url)
        if f == 'header':
            req.rec_headers.add_header('X-Filter', rec.url)
        return req, resp

    def on_done(e, n, want):
        if e.ctx is None:
            return
        wants[e.ctx].append((n, want))
    objs = []
    for i, (k, s) in enumerate(exchs):
        o = Exch(i, k, s)
        o.on_done = on_done
        objs.append(o)
    pos = 0
    trace = []
    ctxs = []
    states = []
    try:
        for who in order:
            if who == len(objs):
                e = ev[pos]
                pos += 1
                if e[0].isupper():
                    c = cap(writer(e[0]), filt if filters else None)
                    same(id(c.__enter__()), id(writer(e[0])), 'what entering the context returns')
                    stack.append(e[0])
                    ctxs.append(c)
                else:
                    ctxs.pop().__exit__(None, None, None)
                    stack.pop()
            else:
                o = objs[who]
                if o.steps[o.pos] == 'O':
                    o.ctx = stack[-1] if stack else None
                try:
                    o.step()
                except Boom:
                    # the filter's error reaches the client, the response is closed all the same
                    o.finish(None)
            states.append((struct, tuple(map(tuple, exchs)), tuple((o.pos, o.ctx, len(o.done)) for o in objs), pos, tuple(stack)))
    finally:
        while ctxs:
            ctxs.pop().__exit__(None, None, None)
    total = 0
    for name, w in writers.items():
        ws = wants[name]
        total += len(ws)
        if filters:
            check_filtered(w.get_contents(), ws, filters, seen, fmt)
            continue
        capture.check_all(w.get_contents(), fmt == 'gz', [x for _, x in ws], 'context ' + name, 'WARC/1.1' if fmt == '1.1' else 'WARC/1.0')
    return Out((struct, total, tuple(sorted((k, len(v)) for k, v in wants.items()))), nontrivial=bool(total), states=states, transitions=len(order))


def check_filtered(data, ws, filters, seen, fmt):
    same([(s[0], s[1], s[2]) for s in seen], [(w.uri,) * 3 for _, w in ws], 'pairs the filter is asked about')
    same([s[3] for s in seen], [str(n) for n, _ in ws], 'responses the filter is asked about')
    keep = []
    for n, w in ws:
        f = filters[1 if n >= 10 else 0]
        if f in ('none', 'onlyreq', 'onlyresp', 'raise'):
            continue
        keep.append((f, w))
    recs = capture.parse(data, fmt == 'gz')
    same(len(recs), 2 * len(keep), 'number of records')
    for k, (f, w) in enumerate(keep):
        resp, req = recs[2 * k:2 * k + 2]
        if f == 'revisit':
            same((resp.get('WARC-Type'), resp.get('WARC-Target-URI')), ('revisit', w.uri), 'record put in by the filter')
            same(resp.block, ref.split_http(w.response)[0], 'headers of the record put in by the filter')
            same(req.all('WARC-Concurrent-To'), [resp.get('WARC-Record-ID')], 'link')
            same(req.block, w.request, 'request')
            same(req.get('WARC-Date'), resp.get('WARC-Date'), 'date')
        else:
            capture.check_pair(resp, req, w, 'filtered exchange')
            same((resp.all('X-Filter'), req.all('X-Filter')), ([w.uri] if f == 'own' else [], [w.uri] if f == 'header' else []), "the filter's header")


def run_exit(st, k, exc):
    """an exception leaves all contexts entered at event k; capturing is off or resumed as before"""
    from warcio.warcwriter import BufferWARCWriter
    cap = fakenet.CAP.capture_http
    ev = STRUCT[st].split()
    E = {'ValueError': ValueError, 'KeyboardInterrupt': KeyboardInterrupt, 'GeneratorExit': GeneratorExit}[exc]
    writers = {}
    num = [0]
    expected = {}

    def fetch(ctx):
        n = num[0]
        num[0] += 1
        net = fakenet.Net(fakenet.Sock([msg(n)]))
        c = net.conn(fakenet.REC)
        c.request('GET', '/%d' % n)
        c.getresponse().read()
        c.close()
        if ctx:
            expected.setdefault(ctx, []).append('http://example.com/%d' % n)

    def body(i, stack):
        """runs the events from i; returns the index after the matching leave"""
        fetch(stack[-1] if stack else None)
        while i < len(ev):
            if i == k:
                raise E('at %d' % i)
            if ev[i][0].isupper():
                name = ev[i][0]
                w = writers.setdefault(name, BufferWARCWriter(gzip=False))
                try:
                    with cap(w):
                        i = body(i + 1, stack + [name])
                except (ValueError, KeyboardInterrupt, GeneratorExit) as e:
                    # every context handles it, going on behind the matching leave
                    require(str(e).startswith('at '), 'another exception: %r', e)
                    depth = 0
                    j = i
                    while True:
                        depth += 1 if ev[j][0].isupper() else -1
                        j += 1
                        if depth == 0:
                            break
                    i = j
                fetch(stack[-1] if stack else None)
            else:
                return i + 1
        return i
    try:
        body(0, [])
    except (ValueError, KeyboardInterrupt, GeneratorExit) as e:
        require(str(e) == 'at %d' % k, 'unexpected exception %r', e)
    fetch(None)
    for name, w in writers.items():
        got = [r.get('WARC-Target-URI') for r in capture.parse(w.get_contents(), False) if r.get('WARC-Type') == 'response']
        same(got, expected.get(name, []), 'recorded in context ' + name)
    return Out((st, k, num[0]), nontrivial=bool(expected), transitions=num[0])
