"""C34: memory: every way of reading, writing, capturing and every command is run on data of two sizes, with all
allocations traced; what it needs at most, and what it keeps, must not depend on the size."""
import base64
import collections
import gc
import hashlib
import io
import itertools
import tracemalloc

from mc import cli, ref
from mc.core import HarnessError, Out, require

ID = 'C34'
LEVEL = 'exploration'
RULE = ('every kind of record x storage x way of reading x options, every record x payload stream x writer, every exchange x capture x way of reading, every command x archive, '
        'each with data of two sizes, or two numbers of records; non-trivial: the data was processed to its end')
ASSUMPTIONS = ['Memory is what the interpreter allocates (tracemalloc); buffers inside zlib and brotli are not seen.',
               'Data is incompressible or little compressible: what one block of compressed data expands to is held whole.']
SIZES = (600000, 1800000)
CHECKED = (2200000, 3400000)      # the check command reads a megabyte at a time
COUNTS = (100, 500)
TINY = (500, 4500)      # of records of a few bytes
ALLOWED = 250000        # growth between the two

KINDS = ['resource', 'lines', 'oneline', 'response', 'respline', 'chunk1', 'chunks', 'chunks100', 'gzip', 'deflate', 'rawdeflate', 'br', 'chunkgzip', 'badgzip', 'badchunk', 'request', 'nolength', 'digests',
         'baddigest', 'revisit', 'arc', 'arcchunks', 'arcline']
MODES = ['plain', 'gz', 'onegz']
CONS = ['skip', 'raw997', 'raw16384', 'raw100000', 'content16384', 'content70000', 'rawline', 'contentline', 'rawline50', 'contentline50', 'length', 'part', 'partcontent', 'close', 'offset']
OPTS = [{}, {'check_digests': 'raise'}, {'check_digests': True}, {'no_record_parse': True}, {'arc2warc': True}, {'ensure_http_headers': True, 'arc2warc': True}, {'block_size': 1000}]
CMDS = [['index'], ['index', '-f', 'offset,length,http:status,warc-type'], ['check'], ['check', '-v'], ['recompress'], ['recompress', '-v'], ['extract'], ['extract', '--payload'], ['extract', '--headers']]
PAYLOADS = ['seek', 'noseek', 'short', 'limit']
RECORDS = ['resource', 'response', 'request', 'metadata', 'revisit', 'parsed', 'parsedrequest', 'given', 'conversion']
WRITERS = ['plain', 'gz', 'buf', 'bufgz', 'filter']
READS = ['read16384', 'read1', 'readinto', 'line', 'iter', 'part', 'unread']
FRAMES = ['len', 'chunked', 'chunked1', 'close', 'gzipped', 'early']
SENDS = ['none', 'bytes', 'file', 'iter', 'chunked']


def BOUNDS(tier):
    return dict(sizes=SIZES, records=COUNTS, tiny_records=TINY, growth_allowed=ALLOWED, kinds=KINDS, storage=MODES, reading=CONS, options=len(OPTS), commands=CMDS, payload_streams=PAYLOADS, written=RECORDS,
                writers=WRITERS, framing=FRAMES, request_bodies=SENDS, client_reads=READS)


def units(tier):
    T = tier == 'thorough'
    out = []
    for k in KINDS:
        for m in MODES:
            out.append(dict(t='read', k=k, m=m, full=T))
            out.append(dict(t='many', k=k, m=m, full=T))
    for k in KINDS:
        out.append(dict(t='cmd', k=k))
    for r in RECORDS:
        for w in WRITERS:
            out.append(dict(t='write', r=r, w=w))
    for f in FRAMES:
        for s in SENDS:
            out.append(dict(t='capture', f=f, s=s))
    out.append(dict(t='readers'))
    return out


def explore(u, run):
    t = u['t']
    if t == 'read':
        for con in CONS:
            for o, opts in enumerate(OPTS):
                if not o or u['full'] or con in ('skip', 'raw16384', 'content16384') or (con, o) in (('rawline', 1), ('part', 1), ('length', 1), ('raw100000', 6), ('contentline50', 6)):
                    run(('read', u['k'], u['m'], con, o, 0))
            run(('read', u['k'], u['m'], con, 0, 300))
    elif t == 'many':
        for con in ('skip', 'raw16384', 'content16384', 'length', 'rawline') if not u['full'] else CONS:
            for o in range(len(OPTS)) if con in ('skip', 'raw16384') or u['full'] else (0,):
                run(('many', u['k'], u['m'], con, o))
    elif t == 'cmd':
        for c in range(len(CMDS)):
            for m in MODES:
                for many in (False, True) if u['k'] in ('lines', 'chunks', 'chunkgzip', 'request', 'digests', 'baddigest', 'revisit', 'arc') else (False,):
                    # decoded chunks as long as the data
                    # and a record without length is the rest of the file
                    held = many and u['k'] == 'nolength' or u['k'] == 'chunk1' and not many and CMDS[c][-1] in ('--payload', 'check', '-v') and CMDS[c][0] != 'recompress'
                    if u['k'] in ('resource', 'response', 'baddigest', 'arcchunks') and not many and CMDS[c][0] != 'extract':
                        run(('cmd', c, u['k'], m, 'tiny'))
                    if not (many and CMDS[c][0] == 'extract') and not held:
                        run(('cmd', c, u['k'], m, many))
    elif t == 'write':
        for p in PAYLOADS:
            # the length is of what follows the HTTP headers
            for known in (True, False) if not u['r'].startswith('parsed') else (False,):
                for many in (False, True):
                    run(('write', u['r'], p, known, u['w'], many))
    elif t == 'capture':
        for read in READS:
            # a body given as bytes is in memory anyway
            for ctx in ('file', 'filegz', 'buffer', 'writer', 'filter') if u['s'] != 'bytes' else ():
                if read in ('read16384', 'part') or (ctx in ('file', 'buffer') and read not in ('line', 'iter')) or (ctx == 'buffer' and u['s'] == 'none'):
                    run(('capture', u['f'], u['s'], read, ctx, False))
            for ctx in ('file', 'writer'):
                for keep in ('keep', 'new'):
                    if ctx == 'writer' or read in ('read16384', 'unread'):
                        run(('capture', u['f'], u['s'], read, ctx, keep))
    else:
        for k in ('members', 'plain', 'gzip', 'deflate', 'br', 'chunks', 'chunkext', 'limit', 'blanks', 'emptymembers'):
            for con in ('raw997', 'raw16384', 'rawline', 'rawline50'):
                run(('readers', k, con))


def run_case(c):
    return {'read': reading, 'many': many, 'cmd': command, 'write': writing, 'capture': capturing, 'readers': readers}[c[0]](*c[1:])


# ------------------------------------------------------------------ data
_cache = collections.OrderedDict()


def cached(key, make):
    if key not in _cache:
        while len(_cache) > 5:
            _cache.popitem(last=False)
        _cache[key] = make()
    _cache.move_to_end(key)
    return _cache[key]


def noise(n, uid=1):
    def make():
        return hashlib.shake_128(b'%d' % uid).digest(n)
    return cached(('noise', n), make) if uid == 1 else make()


def lines(n, uid=1):
    def make():
        raw = base64.b64encode(noise(n, uid))
        return b'\n'.join(raw[i:i + 79] for i in range(0, n, 79))[:n - 1] + b'\n'
    return cached(('lines', n), make) if uid == 1 else make()


def record(k, n, uid=1):
    H = [('Content-Type', 'text/html')]
    TE = H + [('Transfer-Encoding', 'chunked')]
    if k == 'resource':
        return ref.warc('resource', 'http://e/', noise(n, uid), uid=uid)
    if k == 'lines':
        return ref.warc('resource', 'http://e/', lines(n, uid), uid=uid)
    if k == 'oneline':
        return ref.warc('metadata', 'http://e/', noise(n, uid).replace(b'\n', b'x').replace(b'\r', b'x'), uid=uid)
    if k == 'respline':
        return ref.w_response(lines(n, uid), uid)
    if k == 'response':
        return ref.w_response(noise(n, uid), uid)
    if k == 'revisit':
        return ref.w_response(noise(n, uid), uid, rtype='revisit')
    if k in ('chunk1', 'chunks', 'chunks100', 'badchunk'):
        size = {'chunk1': n, 'chunks': 16000, 'chunks100': 1000, 'badchunk': 9000}[k]
        body = ref.chunked(lines(n, uid), [size] * (n // size + 1))
        if k == 'badchunk':
            body = body[:20000] + b'zz' + body[20002:]
        return ref.w_response(body, uid, headers=TE)
    if k in ('gzip', 'deflate', 'rawdeflate', 'br'):
        return ref.w_response(compress(k, n, uid), uid, headers=H + [('Content-Encoding', k.replace('raw', ''))])
    if k == 'badgzip':
        return ref.w_response(lines(n, uid), uid, headers=H + [('Content-Encoding', 'gzip')])
    if k == 'chunkgzip':
        z = compress('gzip', n, uid)
        return ref.w_response(ref.chunked(z, [5000] * (len(z) // 5000 + 1)), uid, headers=TE + [('Content-Encoding', 'gzip')])
    if k == 'request':
        return ref.w_request(lines(n, uid), uid, method='POST')
    if k == 'nolength':
        r = ref.warc('resource', 'http://e/', lines(n, uid), uid=uid)
        r.headers.pop()
        return r
    if k in ('digests', 'baddigest'):
        b = lines(n, uid)
        d = b if k == 'digests' else b'x'
        r = ref.w_response(b, uid)
        r.headers[4:4] = [('WARC-Payload-Digest', ref.sha1_32(d)), ('WARC-Block-Digest', ref.sha1_32(r.httpblock + d))]
        return r
    if k == 'arc':
        return ref.arc_response(noise(n, uid))
    if k == 'arcline':
        return ref.arc_response(lines(n, uid))
    if k == 'arcchunks':
        return ref.arc_response(ref.chunked(lines(n, uid), [20000] * (n // 20000 + 1)), headers=TE)
    raise ValueError(k)


def compress(k, n, uid=1):
    def make():
        if k == 'br':
            import brotli
            return brotli.compress(lines(n, uid), quality=1)
        return {'gzip': ref.gz, 'deflate': ref.deflate, 'rawdeflate': ref.rawdeflate}[k](lines(n, uid), 1)
    return cached((k, n), make) if uid == 1 else make()


def archive(k, m, n, count=1):
    def make():
        recs = [record(k, n, i + 1) for i in range(count)] if count > 1 else [record(k, n), ref.arc_response(b'end') if k.startswith('arc') else ref.warc('metadata', 'http://e/', b'end', uid=9)]
        if m == 'onegz':
            return ref.gz(b''.join(r.full() for r in recs), 0 if count > 1 else 1)
        return b''.join(ref.gz(r.full(), 1) if m == 'gz' else r.full() for r in recs)
    return cached((k, m, n, count), make)


class NoTell(object):
    """a stream over data, of given size of reads"""

    def __init__(self, data, cap=0):
        self.data = data
        self.pos = 0
        self.cap = cap

    def read(self, n=-1):
        n = len(self.data) - self.pos if n is None or n < 0 else n
        if self.cap:
            n = min(n, self.cap)
        b = self.data[self.pos:self.pos + n]
        self.pos += len(b)
        return b

    def readline(self, n=-1):
        i = self.data.find(b'\n', self.pos) + 1
        i = (i or len(self.data)) - self.pos
        return self.read(min(i, n) if n is not None and n >= 0 else i)


class Src(NoTell):
    def tell(self):
        return self.pos


class Seek(Src):
    def seek(self, n, whence=0):
        self.pos = n + (0, self.pos, len(self.data))[whence]
        return self.pos


class Sink(io.RawIOBase):
    n = 0

    def writable(self):
        return True

    def write(self, b):
        self.n += len(b)
        return len(b)


def measured(what, fn, args, allowed=ALLOWED):
    """fn(arg) at most grows that much from the first to the second arg"""
    got = []
    res = []
    fn(args[0])
    for a in args:
        gc.collect()
        tracemalloc.start()
        try:
            r = fn(a)
            peak = tracemalloc.get_traced_memory()[1]
            gc.collect()
            kept = tracemalloc.get_traced_memory()[0]
        finally:
            tracemalloc.stop()
        got.append((peak, kept))
        res.append(r)
    for i, w in enumerate(('needs', 'keeps')):
        require(got[1][i] - got[0][i] < allowed, '%s %s %s bytes for %s, and %s for %s', what, w, got[0][i], args[0], got[1][i], args[1])
    return res


def consume(s, how):
    """how many bytes a stream gives"""
    n = 0
    if how.startswith('line'):
        k = int(how[4:] or -1)
        while True:
            b = s.readline(k) if k > 0 else s.readline()
            n += len(b)
            if not b:
                return n
    while True:
        b = s.read(int(how))
        n += len(b)
        if not b:
            return n


def walk(src, con, opts):
    from warcio.archiveiterator import ArchiveIterator
    import sys
    it = ArchiveIterator(src, **opts)
    n = total = 0
    se, sys.stderr = sys.stderr, io.TextIOWrapper(Sink())
    try:
        for r in it:
            n += 1
            if con.startswith('raw'):
                total += consume(r.raw_stream, con[3:])
            elif con.startswith('content'):
                total += consume(r.content_stream(), con[7:])
            elif con == 'length':
                total += it.get_record_length()
            elif con == 'offset':
                total += it.get_record_offset()
            elif con in ('part', 'close'):
                total += len(r.raw_stream.read(1000))
            elif con == 'partcontent':
                total += len(r.content_stream().read(1000))
            if con == 'close':
                it.close()
                break
    finally:
        sys.stderr.close()
        sys.stderr = se
    return n, total


def held(k, con):
    """lines, and decoded chunks, as long as the data"""
    return (con.endswith('line') and k == 'oneline') or (k == 'chunk1' and 'content' in con)


def reading(k, m, con, o, cap):
    if held(k, con):
        return Out(None, nontrivial=False)
    data = {n: archive(k, m, n) for n in SIZES}

    def fn(n):
        try:
            return walk(Src(data[n], cap), con, OPTS[o])
        except Exception as e:
            if k in ('badchunk', 'baddigest', 'nolength') or m == 'onegz':
                return type(e).__name__
            raise
    res = measured('reading', fn, SIZES)
    whole = con[:3] in ('raw', 'con') and not isinstance(res[1], str)
    if whole and k not in ('badchunk', 'badgzip') and m != 'onegz':
        require(res[1][1] - res[0][1] > 700000, 'read only %s and %s', *res)
    return Out((k, m, con, o, str(res)[:40]), nontrivial=True)


def many(k, m, con, o):
    data = {c: archive(k, m, 2000, c) for c in COUNTS}

    def fn(c):
        try:
            return walk(Src(data[c]), con, OPTS[o])[0]
        except Exception as e:
            if k in ('baddigest', 'nolength') or m == 'onegz':
                return type(e).__name__
            raise
    res = measured('reading many', fn, COUNTS)
    if k not in ('nolength',) and not isinstance(res[0], str):
        require(list(res) == list(COUNTS), 'records: %s', res)
    return Out((k, m, con, o, str(res)), nontrivial=True)


# ------------------------------------------------------------------ commands
def command(c, k, m, many):
    import sys
    from warcio.cli import main
    args = CMDS[c]
    with cli.scratch() as d:
        for i in (0, 1):
            with open('%s/%d' % (d, i), 'wb') as fh:
                fh.write(archive(k, m, 10, TINY[i]) if many == 'tiny' else archive(k, m, 2000, COUNTS[i]) if many else archive(k, m, (CHECKED if args[0] == 'check' else SIZES)[i]))
        _cache.clear()

        def fn(i):
            a = args + ['%s/%d' % (d, i)]
            if args[0] == 'recompress':
                a.append(d + '/out')
            if args[0] == 'extract':
                a.append('0')
            so, se = sys.stdout, sys.stderr
            sys.stdout, sys.stderr = io.TextIOWrapper(io.BufferedWriter(Sink())), io.TextIOWrapper(io.BufferedWriter(Sink()))
            try:
                main(a)
                return 0
            except SystemExit as e:
                return e.code or 0
            except Exception as e:
                if k not in ('badchunk', 'nolength') and m != 'onegz':
                    raise
                return type(e).__name__
            finally:
                sys.stdout, sys.stderr = so, se
        res = measured(' '.join(args), fn, (0, 1))
    return Out((args, k, m, many, str(res)), nontrivial=True)


# ------------------------------------------------------------------ writing
HEAD = b'HTTP/1.1 200 OK\r\nA: b\r\n\r\n'


def writing(rt, p, known, wr, many):
    from warcio.limitreader import LimitReader
    from warcio.statusandheaders import StatusAndHeaders
    from warcio.warcwriter import BufferWARCWriter, WARCWriter
    size = {n: n for n in SIZES}
    if many:
        size = {c: 6000 for c in COUNTS}
    head = HEAD if rt == 'parsed' else b'GET / HTTP/1.1\r\nA: b\r\n\r\n' if rt == 'parsedrequest' else b''
    data = {n: head + noise(s) for n, s in size.items()}

    def fn(n):
        kw = dict(gzip='gz' in wr)
        if wr == 'filter':
            kw['header_filter'] = lambda h: h
        sink = Sink()
        w = BufferWARCWriter(**kw) if wr.startswith('buf') else WARCWriter(sink, **kw)
        for i in range(n if many else 1):
            s = {'seek': Seek, 'limit': Seek, 'noseek': NoTell, 'short': Src}[p](data[n], 700 if p == 'short' else 0)
            if p == 'limit':
                s = LimitReader(s, len(data[n]))
            http = None
            if rt in ('response', 'revisit', 'given'):
                http = StatusAndHeaders('200 OK', [('A', 'b')], protocol='HTTP/1.1')
            elif rt == 'request':
                http = StatusAndHeaders('/ HTTP/1.1', [('A', 'b')], protocol='GET')
            t = {'given': 'response', 'parsed': 'response', 'parsedrequest': 'request'}.get(rt, rt)
            kw = {}
            if rt == 'given':
                kw['warc_headers_dict'] = {'WARC-Payload-Digest': 'sha1:ABC', 'WARC-Block-Digest': 'sha1:ABC'}
            r = w.create_warc_record('http://e/%d' % i, t, payload=s, length=len(data[n]) if known else None, http_headers=http, **kw)
            w.write_record(r)
        if wr.startswith('buf'):
            return consume(w.get_stream(), '16384')
        return sink.n
    res = measured('writing', fn, tuple(size))
    if rt != 'revisit':
        require(res[1] - res[0] > 700000, 'written only %s and %s', *res)
    return Out((rt, p, known, wr, many), nontrivial=True)


# ------------------------------------------------------------------ capture
class Raw(io.RawIOBase):
    def __init__(self, sock, parts):
        self._sock = sock
        self.parts = parts
        self.i = self.pos = 0

    def readable(self):
        return True

    def readinto(self, b):
        while self.i < len(self.parts) and self.pos == len(self.parts[self.i]):
            self.i += 1
            self.pos = 0
        if self.i == len(self.parts):
            return 0
        d = self.parts[self.i]
        n = min(len(b), len(d) - self.pos, 20000)
        b[:n] = d[self.pos:self.pos + n]
        self.pos += n
        return n


class Sock(object):
    def __init__(self, parts):
        self.parts = parts
        self.sent = 0

    def sendall(self, b):
        self.sent += len(b)

    def makefile(self, *a, **k):
        return io.BufferedReader(Raw(self, self.parts))

    def getpeername(self):
        return ('192.0.2.1', 80)

    def setsockopt(self, *a):
        pass

    settimeout = shutdown = setsockopt

    def close(self):
        pass


def capturing(frame, send, read, ctx, many):
    from mc import fakenet
    from warcio.capture_http import capture_http
    from warcio.warcwriter import WARCWriter
    args = COUNTS if many else SIZES
    if many:
        args = (20, 120)
    datas = {}
    sends = {}
    for a in args:
        n = 3000 if many else a
        body = lines(n)
        H = {'len': 'Content-Length: %d' % n, 'early': 'Content-Length: %d' % n, 'close': 'Connection: close'}.get(frame, 'Transfer-Encoding: chunked')
        head = ('HTTP/1.1 200 OK\r\n%s\r\n\r\n' % H).encode()
        if frame == 'gzipped':
            z = compress('gzip', n)
            head = ('HTTP/1.1 200 OK\r\nContent-Encoding: gzip\r\nContent-Length: %d\r\n\r\n' % len(z)).encode()
            body = z
        elif frame == 'chunked':
            body = ref.chunked(body, [9000] * (n // 9000 + 1))
        elif frame == 'chunked1':
            body = ref.chunked(body, [n])
        datas[a] = [head, body]
        sends[a] = noise(n) if send != 'none' else None
    buf = bytearray(10000)

    def get(c, a):
        s = sends[a]
        kw = {}
        if send == 'file':
            s = Src(s)
        elif send == 'iter':
            s = itertools.islice(itertools.repeat(s[:10000]), max(1, len(s) // 10000))
        elif send == 'chunked':
            s = itertools.islice(itertools.repeat(s[:10000]), max(1, len(s) // 10000))
            kw['encode_chunked'] = True
        h = {}
        if send in ('file', 'iter'):
            h['Content-Length'] = '5'
        if send == 'chunked':
            h['Transfer-Encoding'] = 'chunked'
        c.request('POST' if s else 'GET', '/', body=s, headers=h, **kw)
        r = c.getresponse()
        n = 0
        if read == 'read16384':
            n = consume(r, '16384')
        elif read == 'line':
            n = consume(r, 'line')
        elif read == 'read1':
            while True:
                b = r.read1(8000)
                if not b:
                    break
                n += len(b)
        elif read == 'readinto':
            while True:
                k = r.readinto(buf)
                if not k:
                    break
                n += k
        elif read == 'iter':
            for b in r:
                n += len(b)
        elif read == 'part':
            n = len(r.read(100))
        if read in ('part', 'unread') or frame == 'early':
            r.close()
        return n

    with cli.scratch() as d:
        def fn(a):
            out = Sink()
            n = 0
            target = d + '/f.warc' if ctx.startswith('file') else None if ctx == 'buffer' else WARCWriter(out, gzip=False)
            with capture_http(target, (lambda q, r, x: (q, r)) if ctx == 'filter' else None, **({'gzip': True} if ctx == 'filegz' else {})) as w:
                c = None
                for _ in range(a if many else 1):
                    if c is None or many == 'new' or frame in ('close', 'early') or read in ('part', 'unread'):
                        if c:
                            c.close()
                        c = fakenet.REC('e.example')
                        c._create_connection = lambda *x, **k: Sock(datas[a])
                    n += get(c, a)
                c.close()
                if ctx == 'buffer':
                    consume(w.get_stream(), '16384')
            return n
        res = measured('capturing', fn, args)
    if read not in ('part', 'unread'):
        require(res[1] - res[0] > 150000, 'read only %s and %s', *res)
    return Out((frame, send, read, ctx, many), nontrivial=True)


# ------------------------------------------------------------------ readers
def readers(k, con):
    from warcio.archiveiterator import ArchiveIterator
    from warcio.bufferedreaders import BufferedReader, ChunkedDataReader, DecompressingBufferedReader
    from warcio.limitreader import LimitReader
    datas = {}
    for n in SIZES:
        if k in ('members', 'emptymembers'):
            m = ref.gz(lines(20000), 1)
            datas[n] = (m + ref.gz(b'') * 20 if k == 'emptymembers' else m) * (n // 20000)
        elif k.startswith('chunk'):
            datas[n] = ref.chunked(lines(n), [1000] * (n // 1000 + 1), ext=b';a=b' if k == 'chunkext' else b'')
        elif k == 'blanks':
            datas[n] = ref.layout([record('resource', 10)], 'plain')[0] + b'\r\n' * (n // 20) + ref.layout([record('resource', 10)], 'plain')[0]
        else:
            datas[n] = lines(n) if k in ('plain', 'limit') else compress(k, n)

    def fn(n):
        s = Src(datas[n])
        if k == 'blanks':
            return walk(s, con, {})[1]
        if k.endswith('members'):
            r = DecompressingBufferedReader(s, read_all_members=True)
        elif k.startswith('chunk'):
            r = ChunkedDataReader(BufferedReader(s))
        elif k == 'limit':
            r = LimitReader(BufferedReader(s), n)
        else:
            r = BufferedReader(s, decomp_type=None if k == 'plain' else k)
        return consume(r, con[3:])
    res = measured('reading', fn, SIZES)
    if k != 'blanks':
        require(res[1] - res[0] > 700000, 'read only %s and %s', *res)
    return Out((k, con), nontrivial=True)
