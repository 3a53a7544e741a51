"""C32: every read of an input or payload and every write or flush of an output made to
fail, one at a time, and every size a file may be limited to."""
import functools
import io
import os
import resource

from mc import build, cli, menu, ref
from mc.core import Out, Violation, require, same

ID = 'C32'
LEVEL = 'fault_enumeration'
RULE = ('every archive of the menu x consumption x the read of the input that fails x exception; every record x payload stream x gzip x the read of the payload, or the write or flush of the output, '
        'that fails; every limit of the size of files the commands write; non-trivial: the fault struck')
ASSUMPTIONS = ['A failing stream raises an exception other than EOFError, which stands for the end of the data while headers are parsed.', 'After a failed read the stream is not read again by the caller.']
ERRS = ['OSError', 'ValueError', 'TypeError', 'AttributeError', 'KeyError', 'AssertionError', 'RuntimeError', 'UnicodeDecodeError', 'ZlibError', 'KeyboardInterrupt', 'Own']
ACTS = ['skip', 'raw', 'raw3', 'lines', 'content', 'content5', 'length']
OPTS = [(), ('digests',), ('noparse',), ('conv', 'ensure')]


class Own(Exception):
    pass


def err(name):
    import zlib
    if name == 'Own':
        return Own('injected')
    if name == 'ZlibError':
        return zlib.error('injected')
    if name == 'UnicodeDecodeError':
        return UnicodeDecodeError('utf-8', b'x', 0, 1, 'injected')
    if name == 'OSError':
        return OSError(5, 'injected')
    return {'ValueError': ValueError, 'TypeError': TypeError, 'AttributeError': AttributeError, 'KeyError': KeyError, 'AssertionError': AssertionError, 'RuntimeError': RuntimeError,
            'KeyboardInterrupt': KeyboardInterrupt, 'EOFError': EOFError}[name]('injected')


NAMES = [n for n in build.menu() if n != 'auto']
W = ['response', 'resp_chunked_gzip', 'resp_chunked', 'resp_gzip', 'resp_br', 'resp_deflate', 'request_post', 'metadata', 'revisit_headers', 'revisit_empty', 'warcish', 'dig', 'resp_utf8', 'resp_empty_body']
A = ['arc_header', 'arc_resp', 'arc_chunked', 'arc_nl']


def BOUNDS(tier):
    return dict(warc_menu=W, arc_menu=A, actions=ACTS, errors=ERRS, options=OPTS, read_sizes=[1, 9, 40, 16384], payload_streams=PAY, written=NAMES)


def units(tier):
    out = []
    for n in W + A:
        for m in ('plain', 'gz'):
            out.append(dict(t='read', n=n, m=m))
    for n in NAMES:
        out.append(dict(t='write', n=n))
    out += [dict(t='big', b=b) for b in ('big_resp', 'big_chunked', 'big_40000')]
    out += [dict(t='cmd', c=c, k=k, of=8) for c in ('index', 'recompress', 'recompress_bad') for k in range(8)]
    out += [dict(t='stdin'), dict(t='spill')]
    return out


def archive(n, m):
    ms = {}
    for f in (menu.warc_menu, menu.arc_menu, menu.big_menu):
        ms.update(f())
    r = ms['metadata']
    ms['dig'] = ref.Rec(r.fmt, r.rec_type, r.headers + [('WARC-Block-Digest', ref.sha1_32(r.block)), ('WARC-Payload-Digest', ref.sha1_32(r.body))], r.httpblock, r.http, r.body, r.version, r.content)
    recs = [ms[n], ms['arc_resp' if n.startswith('arc') else 'response'], ms[n]]
    return recs, ref.layout(recs, m)[0]


archive = functools.lru_cache(100)(archive)


def explore(u, run):
    t = u['t']
    if t == 'read':
        size = len(archive(u['n'], u['m'])[1])
        for act in ACTS:
            for b in (9, 40):
                for k in range(size // b + 3):
                    for e in (ERRS if b == 40 else ERRS[:2]):
                        run(('read', u['n'], u['m'], b, k, act, e, ()))
                    for o in OPTS[1:]:
                        run(('read', u['n'], u['m'], b, k, act, 'OSError', o))
            for k in range(size + 2):
                run(('read', u['n'], u['m'], 1, k, act, 'OSError', ()))
    elif t == 'big':
        size = len(archive(u['b'], 'plain')[1])
        for m in ('plain', 'gz'):
            for act in ACTS:
                for k in range(size // 16384 + 3):
                    for e in ERRS:
                        run(('read', u['b'], m, 16384, k, act, e, ()))
    elif t == 'write':
        spec = build.menu()[u['n']]
        n = len(spec.payload('parsed'))
        for gzip in (False, True):
            for how in build.hows(spec):
                for known in (True, False):
                    for kind in PAY:
                        for k in range(2 * (n // PIECE) + 6):
                            for e in ERRS + ['EOFError'] * (how != 'parsed'):
                                run(('payload', u['n'], gzip, how, known, kind, k, e))
                        for big in (20000, 70000, 600000) if spec.kept or spec.http is not None else ():
                            for k in range(2 * (big // 16384) + 8):
                                if big < 600000 or (k % 5 == 1 and u['n'] in ('response', 'resource')):
                                    run(('payload', u['n'], gzip, how, known, kind, k, 'OSError', big))
                    for dest in ('out', 'pair'):
                        for k in range(24):
                            for e in ERRS:
                                run((dest, u['n'], gzip, how, known, k, e))
    elif t == 'cmd':
        for n in ('warc', 'arc', 'big'):
            full = _full(u['c'], n)
            step = 1 if full < 3000 else 97
            for lim in list(range(0, full + 3, step))[u['k']::u['of']] + ([full - 1, full, full + 1] if not u['k'] else []):
                run(('cmd', u['c'], n, lim))
    elif t == 'stdin':
        for n in ('response', 'arc_resp', 'big_resp'):
            for m in ('plain', 'gz'):
                for k in range(6):
                    for b in (300, 16384):
                        for e in ERRS[:-3]:
                            run(('stdin', n, m, b, k, e))
    else:
        for size in (500000, 530000, 700000):
            for lim in (0, 1, 1000, 400000, 523000, 529999, 600000):
                for kind in ('unseek', 'unknown'):
                    for gzip in (False, True):
                        run(('spill', size, lim, kind, gzip))


class Faulty(object):
    """a stream whose read number k (and every later one) raises"""

    def __init__(self, data, cap, k, exc):
        self.b = io.BytesIO(data)
        self.cap = cap
        self.k = k
        self.exc = exc
        self.struck = False

    def _tick(self):
        if self.k <= 0:
            self.struck = True
            raise self.exc
        self.k -= 1

    def read(self, n=-1):
        self._tick()
        return self.b.read(self.cap if n is None or n < 0 else min(n, self.cap))

    def readline(self, n=-1):
        self._tick()
        return self.b.readline(-1 if n is None else n)


class FaultySeek(Faulty):
    def tell(self):
        return self.b.tell()

    def seek(self, p, w=0):
        return self.b.seek(p, w)


class FaultOut(object):
    def __init__(self, k, exc):
        self.data = b''
        self.k = k
        self.exc = exc
        self.struck = False

    def _tick(self):
        if self.k == 0:
            self.struck = True
            self.k -= 1
            raise self.exc
        self.k -= 1

    def write(self, b):
        self._tick()
        self.data += b
        return len(b)

    def flush(self):
        self._tick()


PIECE = 7
PAY = ['seek', 'noseek', 'limit']


def run_case(c):
    return {'read': reading, 'payload': payload, 'out': output, 'pair': pair, 'cmd': command, 'stdin': stdin, 'spill': spill}[c[0]](*c[1:])


def reading(n, m, block, k, act, e, opts):
    from warcio.archiveiterator import ArchiveIterator
    recs, data = archive(n, m)
    exc = err(e)
    fh = Faulty(data, block, k, exc)
    kw = {}
    if 'digests' in opts:
        kw['check_digests'] = True
    if 'conv' in opts:
        kw['arc2warc'] = True
    if 'ensure' in opts:
        kw['ensure_http_headers'] = True
    if 'noparse' in opts:
        kw['no_record_parse'] = True
    it = ArchiveIterator(fh, block_size=block, **kw)
    got = []
    raised = None
    record = None
    try:
        for record in it:
            rec = recs[len(got)] if len(got) < len(recs) else None
            require(rec is not None, 'a record too many')
            if 'conv' not in opts and 'ensure' not in opts:
                menu.check_headers(record, rec, ('no_record_parse',) if 'noparse' in opts else (), 'record %d: ' % len(got))
            got.append([])
            if act == 'skip':
                continue
            if act == 'length':
                it.get_record_length()
                continue
            st = record.content_stream() if act.startswith('content') else record.raw_stream
            while True:
                b = st.readline() if act == 'lines' else st.read(3 if act == 'raw3' else 5) if act in ('raw3', 'content5') and len(rec.block) < 1000 else st.read()
                if not b:
                    break
                got[-1].append(b)
    except BaseException as x:
        if x is not exc:
            raise
        raised = x
    require((raised is not None) == fh.struck, 'the input failed, but nothing was raised; %s records read', len(got))
    if act not in ('skip', 'length'):
        for i, parts in enumerate(got):
            r = recs[i]
            parsed = r.http is not None and 'noparse' not in opts
            want = (r.content if act.startswith('content') else r.body) if parsed else r.block
            have = b''.join(parts)
            if i + 1 < len(got) or not raised:
                same(have, want, 'content of record %d' % i)
            else:
                require(want.startswith(have), 'content read before the failure: %s', have)
    if raised is None:
        same(len(got), len(recs), 'records')
    elif record is not None and record.digest_checker is not None and 'digests' in opts and len(b''.join(got[-1])) < len(recs[len(got) - 1].body):
        if act not in ('skip', 'length'):
            same((record.digest_checker.passed, list(record.digest_checker.problems)), (None, []), 'digest check of the record not read completely')
    if raised is not None:
        try:
            r = next(it)
        except BaseException as x:
            if not isinstance(x, StopIteration) and x is not exc:
                raise
        else:
            raise Violation('a record after the failure: %s' % r.rec_headers)
    return Out((n, m, act, e if raised else None, len(got)), nontrivial=raised is not None, transitions=len(got))


def make(w, name, how, known, kind, k=1 << 30, exc=None, big=0, uid=1):
    """a record and its payload stream, failing from the k-th read on"""
    spec = build.menu()[name]
    if big:
        spec = spec.with_body(ref.pat(big, 4))
    data = spec.payload(how)
    cap = 16384 if big else PIECE
    st = (FaultySeek if kind == 'seek' else Faulty)(data + (b'MORE' if kind == 'limit' else b''), cap, k, exc)
    pay = st
    if kind == 'limit':
        from warcio.limitreader import LimitReader
        pay = LimitReader(st, len(data))
    return spec, st, record(w, spec, how, known, pay, uid)


def record(w, spec, how, known, pay, uid=1):
    return build.build(w, spec, how, pay, known, uid)


def plain(name, gzip, how, known, big=0, uid=1):
    from warcio.warcwriter import WARCWriter
    out = io.BytesIO()
    w = WARCWriter(out, gzip=gzip)
    spec, st, r = make(w, name, how, known, 'seek', big=big, uid=uid)
    w.write_record(r)
    return out.getvalue()


plain = functools.lru_cache(3000)(plain)


def payload(name, gzip, how, known, kind, k, e, big=0):
    from warcio.warcwriter import WARCWriter
    exc = err(e)
    out = FaultOut(1 << 30, None)
    w = WARCWriter(out, gzip=gzip)
    first = plain('metadata', gzip, 'none', True, uid=7)
    w.write_record(make(w, 'metadata', 'none', True, 'seek', uid=7)[2])
    same(out.data, first, 'first record')
    st = None
    raised = built = False
    try:
        spec = build.menu()[name]
        if big:
            spec = spec.with_body(ref.pat(big, 4))
        data = spec.payload(how)
        st = (FaultySeek if kind == 'seek' else Faulty)(data + (b'MORE' if kind == 'limit' else b''), 16384 if big else PIECE, k, exc)
        pay = st
        if kind == 'limit':
            from warcio.limitreader import LimitReader
            pay = LimitReader(st, len(data))
        r = record(w, spec, how, known, pay)
        built = True
        w.write_record(r)
    except BaseException as x:
        if x is not exc:
            raise
        raised = True
    same(raised, st.struck, 'the failure is reported')
    whole = plain(name, gzip, how, known, big)
    part = out.data[len(first):]
    same(out.data[:len(first)], first, 'the record before')
    if raised:
        require(whole.startswith(part), 'output after the failure is no beginning of the record: %s', part)
        require(built or not part, 'output although building failed')
        if kind != 'seek' or not known:
            same(part, b'', 'output, the payload having failed on its first reading')
    else:
        same(part, whole, 'output')
    w.write_record(make(w, 'resource', 'none', True, 'seek', uid=8)[2])
    same(out.data[len(first) + len(part):], plain('resource', gzip, 'none', True, uid=8), 'the record after')
    return Out((name, gzip, how, known, kind, raised, len(part) > 0), nontrivial=raised)


def output(name, gzip, how, known, k, e):
    from warcio.warcwriter import WARCWriter
    exc = err(e)
    out = FaultOut(k, exc)
    w = WARCWriter(out, gzip=gzip)
    want = plain('metadata', gzip, 'none', True, uid=7) + plain(name, gzip, how, known) + plain('resource', gzip, 'none', True, uid=8)
    raised = False
    try:
        w.write_record(make(w, 'metadata', 'none', True, 'seek', uid=7)[2])
        w.write_record(make(w, name, how, known, 'seek')[2])
        w.write_record(make(w, 'resource', 'none', True, 'seek', uid=8)[2])
    except BaseException as x:
        if x is not exc:
            raise
        raised = True
    same(raised, out.struck, 'the failure is reported')
    require(want.startswith(out.data), 'output after a failed write is no beginning of what was written: %s', out.data)
    if not raised:
        same(out.data, want, 'output')
    n = len(out.data)
    out.k = -1
    w.write_record(make(w, 'resource', 'none', True, 'seek', uid=9)[2])
    same(out.data[n:], plain('resource', gzip, 'none', True, uid=9), 'a record written after the failure')
    return Out((name, gzip, how, raised, n), nontrivial=raised)


def pair(name, gzip, how, known, k, e):
    from warcio.warcwriter import WARCWriter
    if build.menu()[name].rtype != 'response':
        return Out(name, nontrivial=False)
    exc = err(e)

    def go(out):
        w = WARCWriter(out, gzip=gzip)
        q = make(w, 'request_post', 'given', True, 'seek', uid=5)[2]
        p = make(w, name, how, known, 'seek', uid=6)[2]
        w.write_request_response_pair(q, p)
    ok = FaultOut(1 << 30, None)
    go(ok)
    out = FaultOut(k, exc)
    raised = False
    try:
        go(out)
    except BaseException as x:
        if x is not exc:
            raise
        raised = True
    same(raised, out.struck, 'the failure is reported')
    require(ok.data.startswith(out.data), 'output after a failed write is no beginning of the pair: %s', out.data)
    if not raised:
        same(out.data, ok.data, 'output')
    return Out((name, gzip, how, raised, len(out.data)), nontrivial=raised)


def _input(cmd, n):
    m = menu.warc_menu()
    if n == 'arc':
        a = menu.arc_menu()
        recs = [a['arc_header'], a['arc_resp'], a['arc_chunked']]
    elif n == 'big':
        b = menu.big_menu()
        recs = [b['big_40000'], m['response'], b['big_resp']] * (2 if cmd.startswith('rec') else 30)
    else:
        recs = [m['response'], m['warcinfo'], m['request_post']]
    return ref.layout(recs, 'onegz' if cmd == 'recompress_bad' else 'gz')[0]


def _args(cmd, d):
    return ['index', '-f', 'offset,length,warc-type,warc-target-uri', '-o', d + '/out', d + '/in'] if cmd == 'index' else ['recompress', d + '/in', d + '/out']


def command(cmd, n, lim):
    full = _full(cmd, n)
    with cli.scratch() as d:
        with open(d + '/in', 'wb') as f:
            f.write(_input(cmd, n))
        soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
        failed = None
        try:
            resource.setrlimit(resource.RLIMIT_FSIZE, (lim, hard))
            try:
                code = cli.run(_args(cmd, d))[0]
            except OSError as x:
                failed = x
        finally:
            resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
        size = os.path.getsize(d + '/out') if os.path.exists(d + '/out') else 0
        if failed is None and code == 0:
            require(size <= lim, 'harness: %s bytes written', size)
            with open(d + '/out', 'rb') as f:
                out = f.read()
            # (converted records have random ids)
            same(cli.run(['index', '-f', 'warc-type'], out)[1] if cmd != 'index' else out, _full_out(cmd, n), 'output of a command that claims success')
        else:
            require(lim < full + 20 or cmd == 'recompress_bad', 'failed: %s', failed)
        with open(d + '/in', 'rb') as f:
            same(f.read(), _input(cmd, n), 'the input file')
    return Out((cmd, n, lim, failed is None), nontrivial=lim < full)


def _full(cmd, n):
    return _complete(cmd, n)[0]


def _full_out(cmd, n):
    return _complete(cmd, n)[1]


def _complete(cmd, n):
    with cli.scratch() as d:
        with open(d + '/in', 'wb') as f:
            f.write(_input(cmd, n))
        code = cli.run(_args(cmd, d))[0]
        same(code, 0, 'exit status without a limit')
        with open(d + '/out', 'rb') as f:
            out = f.read()
        return len(out), out if cmd == 'index' else cli.run(['index', '-f', 'warc-type'], out)[1]


_complete = functools.lru_cache(100)(_complete)


def stdin(n, m, block, k, e):
    recs, data = archive(n, m)
    exc = err(e)
    fh = Faulty(data, block, k, exc)
    ok = cli.run(['index', '-'], data)
    same(ok[0], 0, 'exit status')
    raised = False
    with cli.scratch() as d:
        code = None
        try:
            code = cli.run(['index', '-o', d + '/o', '-'], fh)[0]
        except BaseException as x:
            if x is not exc:
                raise
            raised = True
        with open(d + '/o', 'rb') as f:
            got = f.read()
    same(raised or bool(code), fh.struck, 'the failure is reported')
    require(ok[1].startswith(got) and got[-1:] in (b'', b'\n'), 'index lines: %s', got)
    if not fh.struck:
        same(got, ok[1], 'index lines')
    return Out((n, m, block, k, raised), nontrivial=fh.struck)


def spill(size, lim, kind, gzip):
    from warcio.warcwriter import WARCWriter
    out = FaultOut(1 << 30, None)
    w = WARCWriter(out, gzip=gzip)
    spec = build.menu()['resource'].with_body(ref.pat(size, 4))
    r = record(w, spec, 'none', kind == 'unseek', Faulty(spec.payload('none'), 1 << 30, 1 << 30, None))
    soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
    raised = False
    try:
        resource.setrlimit(resource.RLIMIT_FSIZE, (lim, hard))
        try:
            w.write_record(r)
        except OSError:
            raised = True
    finally:
        resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
    if raised:
        same(out.data, b'', 'output although the payload could not be buffered')
        w.write_record(make(w, 'resource', 'none', True, 'seek', uid=8)[2])
        same(out.data, plain('resource', gzip, 'none', True, uid=8), 'the record after')
    else:
        recs = ref.parse_written(out.data, gzip)
        same(len(recs), 1, 'records')
        require(recs[0].block == spec.body, 'block differs')
    return Out((size, lim, kind, gzip, raised), nontrivial=raised)
