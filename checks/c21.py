"""C21: real threads under a controlled scheduler, every schedule within a preemption bound."""
import functools
import io
import os

from mc import sched
from mc import capture, cli, fakenet, ref
from mc.core import Out, Violation, require, same

ID = 'C21'
LEVEL = 'exploration'
RULE = ('every schedule of the threads of each scenario within the preemption bound, a preemption possible before every source line (thorough: every bytecode '
        'instruction) of the library; schedules whose preemption does not take effect (thread finished or waiting) are run but not counted as non-trivial')
ASSUMPTIONS = ['Preemptions happen between source lines of the library (between bytecode instructions in the thorough instruction units); code outside the library runs without preemption.',
               'Locks are those of threading.Lock and threading.RLock.', 'Calls into C code are atomic (as under the interpreter lock).']
SCEN = ['own', 'shared', 'sharedgz', 'one', 'outside', 'files', 'mixed', 'filter', 'nested', 'raw', 'samefile', 'leave']
SCEN3 = ['shared3', 'own3']
PARTS = 8


def BOUNDS(tier):
    T = tier == 'thorough'
    return dict(scenarios=SCEN + SCEN3, preemptions={'every line': 2 if T else 1, 'every function call' + ('' if T else ' of capture_http.py and warcwriter.py'): 2, 'every instruction': 1 if T else 'one scenario'}, threads='2, and 3 in %s' % SCEN3)


def units(tier):
    T = tier == 'thorough'
    out = []
    for s in SCEN:
        parts = 48 if T else PARTS
        for r in range(parts):
            out.append(dict(s=s, b=1, g='line', r=r, m=parts))
    for s in SCEN:
        parts = 48 if T else PARTS
        for r in range(parts):
            out.append(dict(s=s, b=2, g='call' if T else 'call@capture_http.py,warcwriter.py', r=r, m=parts))
    for s in SCEN3:
        for r in range(PARTS):
            out.append(dict(s=s, b=1, g='line' if T else 'line@capture_http.py,warcwriter.py', r=r, m=PARTS))
    for s in SCEN if T else ('shared',):
        for r in range(48 if T else 16):
            out.append(dict(s=s, b=1, g='opcode' if T else 'opcode@capture_http.py,warcwriter.py', r=r, m=48 if T else 16))
    if T:
        for s in ('shared', 'one', 'own', 'outside'):
            for r in range(200):
                out.append(dict(s=s, b=2, g='line', r=r, m=200))
    return out


OWN = {}


def explore(u, run):
    n = 3 if u['s'].endswith('3') else 2
    run_case((u['s'], 0, [], u['g']))        # warm up caches, so that runs are repeatable

    def measure(first, plan):
        return execute(u['s'], first, plan, u['g'])[0].owners
    for first, plan in sched.plans(measure, n, u['b'], u['r'], u['m']):
        run((u['s'], first, sorted(plan.items()), u['g']))


def run_case(c):
    scen, first, plan, gran = c
    s, verify = execute(scen, first, dict((int(k), t) for k, t in plan), gran)
    total = verify()
    return Out((scen, tuple((a, b) for _, a, b in s.order)), nontrivial=s.taken == len(plan), transitions=s.n, states=[(scen, s.n, tuple(s.order))], points=s.n)


def fetch(n, kind='http', conn=None, before=None):
    """one exchange; returns the sockets"""
    if conn is None:
        conn, sock = connect(n, kind)
    conn.request('POST', target(n, kind), body=b'request body %d' % n)
    r = conn.getresponse()
    same(r.read(), b'response body %d' % n, 'the body the client gets')
    conn.close()


def target(n, kind):
    return 'http://target.example/%d' % n if kind == 'proxy' else '/%d' % n


SENT = {}


def connect(n, kind='http'):
    body = b'response body %d' % n
    resp = fakenet.H('HTTP/1.1 200 OK', 'X-N: %d' % n, 'Content-Length: %d' % len(body)) + body
    rs = [resp]
    if kind == 'tunnel':
        rs.insert(0, fakenet.H('HTTP/1.1 200 OK'))
    sock = fakenet.Sock(rs, (0,), ('198.51.100.%d' % n, 80))
    net = fakenet.Net(sock)
    c = net.conn(fakenet.REC, 'host%d.example' % n, 3128 if kind in ('tunnel', 'proxy') else None, ('target%d.example' % n, 443) if kind == 'tunnel' else None, kind == 'tunnel')
    SENT[n] = (sock, resp, kind)
    return c, sock


def want(n):
    sock, resp, kind = SENT[n]
    uri = {'http': 'http://host%d.example/%d' % (n, n), 'proxy': 'http://target.example/%d' % n, 'tunnel': 'https://target%d.example/%d' % (n, n)}[kind]
    proxy = {'http': None, 'proxy': 'http://host%d.example:3128' % n, 'tunnel': 'https://host%d.example:3128' % n}[kind]
    return capture.Want(uri, sock.sent_for(1 if kind == 'tunnel' else 0), resp, '198.51.100.%d' % n, proxy)


def execute(scen, first, plan, gran):
    from warcio.warcwriter import BufferWARCWriter, WARCWriter
    cap = fakenet.CAP.capture_http
    SENT.clear()
    kinds = {1: 'http', 2: 'http', 3: 'http'}
    if scen == 'mixed':
        kinds = {1: 'tunnel', 2: 'proxy'}

    def checker(writer, ns, gz=False):
        capture.check_all(writer.get_contents() if hasattr(writer, 'get_contents') else writer, gz, [want(n) for n in ns], scen, ordered=False)
        return len(ns)
    if scen in ('own', 'own3', 'nested', 'outside'):
        ws = {n: BufferWARCWriter(gzip=False) for n in (1, 2, 3)}
        num = 3 if scen == 'own3' else 2
        inner = BufferWARCWriter(gzip=False)

        def go(n):
            def fn():
                if scen == 'outside' and n == 2:
                    fetch(n)
                    return
                with cap(ws[n]):
                    if scen == 'nested' and n == 1:
                        with cap(inner):
                            fetch(11)
                    fetch(n)
                if scen == 'nested':
                    fetch(20 + n)
            return fn
        s = sched.Sched([go(n) for n in range(1, num + 1)], first, plan, gran).run()

        def verify():
            t = 0
            for n in range(1, num + 1):
                t += checker(ws[n], [] if scen == 'outside' and n == 2 else [n])
            if scen == 'nested':
                t += checker(inner, [11])
            return t
    elif scen in ('shared', 'sharedgz', 'shared3', 'mixed', 'filter'):
        gz = scen == 'sharedgz'
        w = BufferWARCWriter(gzip=gz)
        num = 3 if scen == 'shared3' else 2
        seen = []

        def filt(req, resp, rec):
            seen.append((rec.url, req.rec_headers.get_header('WARC-Target-URI'), resp.rec_headers.get_header('WARC-Target-URI')))
            return req, resp

        def go(n):
            def fn():
                with cap(w, filt if scen == 'filter' else None):
                    fetch(n, kinds[n])
            return fn
        s = sched.Sched([go(n) for n in range(1, num + 1)], first, plan, gran).run()

        def verify():
            if scen == 'filter':
                same(sorted(seen), sorted((want(n).uri,) * 3 for n in (1, 2)), 'what the filter saw')
            return checker(w, range(1, num + 1), gz)
    elif scen in ('one', 'raw'):
        w = BufferWARCWriter(gzip=False)
        if scen == 'raw':
            out = io.BytesIO()
            w = WARCWriter(out, gzip=False)
        with cap(w):
            conns = {n: connect(n)[0] for n in (1, 2)}

            def go(n):
                return lambda: fetch(n, 'http', conns[n])
            s = sched.Sched([go(n) for n in (1, 2)], first, plan, gran).run()
            fetch(3)

        def verify():
            return checker(out.getvalue() if scen == 'raw' else w, [1, 2, 3])
    elif scen == 'files':
        with cli.scratch() as d:
            def go(n):
                def fn():
                    with cap(os.path.join(d, '%d.warc' % n), gzip=False):
                        fetch(n)
                return fn
            s = sched.Sched([go(n) for n in (1, 2)], first, plan, gran).run()
            data = {n: open(os.path.join(d, '%d.warc' % n), 'rb').read() for n in (1, 2)}

        def verify():
            return checker(data[1], [1]) + checker(data[2], [2])
    elif scen == 'samefile':
        with cli.scratch() as d:
            f = os.path.join(d, 'x.warc')

            def go(n):
                def fn():
                    with cap(f, gzip=False):
                        fetch(n)
                return fn
            s = sched.Sched([go(n) for n in (1, 2)], first, plan, gran).run()
            data = open(f, 'rb').read()

        def verify():
            return checker(data, [1, 2])
    elif scen == 'leave':
        # the context ends while another thread uses a connection opened in it
        with cli.scratch() as d:
            f = os.path.join(d, 'x.warc')
            box, log = [], []

            def user():
                if box:
                    fetch(1, 'http', box[0])
                    log.append('used')

            def owner():
                with cap(f, gzip=False):
                    box.append(connect(1)[0])
                    fetch(2)
                    log.append('leaving')
                fetch(3)
            s = sched.Sched([user, owner], first, plan, gran).run()
            data = open(f, 'rb').read()

        def verify():
            uris = [r.get('WARC-Target-URI') for r in capture.parse(data, False)]
            ns = [2]
            if 1 in SENT and want(1).uri in uris:
                ns.append(1)
            require(1 in ns or 'used' not in log[:log.index('leaving')], 'an exchange completed within the context is not recorded')
            return checker(data, ns)
    return s, verify
