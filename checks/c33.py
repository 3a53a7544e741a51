"""C33: who closes what: commands, writes, captures and reads over every combination of input,
damage, failing operation and stage, with the open file descriptors of the process counted."""
import gc
import gzip
import io
import itertools
import os
import resource
import warnings

from mc import build, cli, fakenet, menu, ref
from mc.core import Out, Violation, require, same

ID = 'C33'
LEVEL = 'fault_enumeration'
RULE = ('every command x archive x storage x position the input is cut at or output size allowed; every record x payload stream x length known or not x failing operation; every archive x cut x consumption; '
        'every reader x data x operations before closing; every exchange x capture x stage it ends at; non-trivial: something was opened, written or read')
ASSUMPTIONS = ['Open files are those in /proc/self/fd; a file closed only by the garbage collector is told by its ResourceWarning.',
               'A record whose write failed, a command whose output cannot be written, and an exchange neither finished nor closed, may keep their own files until they are dropped.']
CMDS = ['index', 'index-o', 'index-http', 'index2', 'check', 'check-v', 'extract', 'extract-payload', 'extract-headers', 'recompress', 'recompress-v']
WN = ['response', 'resp_chunked_gzip', 'metadata', 'request_post', 'revisit_headers']
AN = ['arc_header', 'arc_resp']
CONS = ['skip', 'raw', 'raw5', 'content', 'length']
KINDS = ['bytes', 'offset', 'short7', 'unseek', 'unseek5', 'tellno', 'limit', 'gz']
STAGES = ['connect', 'send', 'begin', 'part', 'rest', 'close']
ENDS = ['normal', 'Exception', 'KeyboardInterrupt']


def BOUNDS(tier):
    return dict(commands=CMDS, cuts='every %s byte' % ('' if tier == 'thorough' else '29th'), archives=[WN, AN], consumption=CONS, payload_streams=KINDS, stages=STAGES,
                sizes=[30, 20000, 600000], read_operations=3)


def units(tier):
    T = tier == 'thorough'
    out = []
    for c in CMDS:
        for names in (['response', 'resp_chunked_gzip', 'metadata'], ['arc_header', 'arc_resp'], ['big_600k', 'response'], []):
            for mode in ('plain', 'gz', 'onegz'):
                if names or mode == 'plain':
                    out.append(dict(t='cmd', c=c, names=names, mode=mode, step=1 if T else 29))
        out.append(dict(t='odd', c=c))
    out.append(dict(t='objects'))
    for n in build.menu():
        if n != 'auto':
            out.append(dict(t='write', n=n, full=T))
    for n in WN + AN:
        for mode in ('plain', 'gz'):
            out.append(dict(t='read', n=n, mode=mode, step=1 if T else 7))
    for k in ('plain', 'gzip', 'deflate', 'rawdeflate', 'br', 'bad', 'chunked', 'chunkedgz', 'limit', 'digest'):
        out.append(dict(t='close', k=k))
    for ctx in ('default', 'file', 'writer', 'nested'):
        for size in (30, 20000, 600000):
            out.append(dict(t='capture', ctx=ctx, size=size))
    return out


def data_of(names, mode):
    ms = {}
    for f in (menu.warc_menu, menu.arc_menu):
        ms.update(f())
    ms['big_600k'] = ref.w_response(ref.pat(600000, 2))
    return ref.layout([ms[n] for n in names], mode)[0]


def explore(u, run):
    t = u['t']
    if t == 'cmd':
        n = len(data_of(u['names'], u['mode']))
        step = u['step'] * (1 if n < 5000 else 200000)
        for cut in sorted(set(list(range(0, n, step)) + [max(0, n - 1), n])):
            run(('cmd', u['c'], u['names'], u['mode'], cut, None))
        for lim in (0, 1, 50, 300, 1000, 100000, 599000) if n > 5000 else range(0, 1500, 97):
            run(('cmd', u['c'], u['names'], u['mode'], n, lim))
    elif t == 'objects':
        for c in ('index', 'index-http', 'check', 'extract', 'extract-payload', 'recompress'):
            for names in (['response', 'resp_chunked_gzip', 'metadata'], ['arc_header', 'arc_resp'], []):
                for mode in ('plain', 'gz', 'onegz'):
                    n = len(data_of(names, mode))
                    for cut in sorted(set(list(range(0, n, 101)) + [n])) if c != 'recompress' else [n]:
                        run(('objects', c, names, mode, cut))
    elif t == 'odd':
        for odd in ('missing', 'dir', 'out-missing', 'out-dir', 'junk', 'empty', 'nothing', 'offset'):
            run(('odd', u['c'], odd))
    elif t == 'write':
        spec = build.menu()[u['n']]
        can = spec.http is not None or spec.kept
        for how in build.hows(spec):
            for kind in KINDS:
                for known in (True, False):
                    for gzip in (False, True):
                        for big in (0, 20000, 600000) if can and (kind in ('bytes', 'unseek5', 'tellno') or u['full']) else (0,):
                            for times in (1, 2):
                                run(('write', u['n'], how, kind, known, gzip, big, times, None))
                                run(('write', u['n'], how, kind, known, gzip, big, times, 'pair'))
                        for k in range(9):
                            run(('write', u['n'], how, kind, known, gzip, 0, 1, k))
                            if can:
                                run(('write', u['n'], how, kind, known, gzip, 600000 if kind == 'unseek5' and k in (0, 3, 6) else 20000, 1, k))
    elif t == 'read':
        n = len(data_of([u['n']] * 2, u['mode']))
        for cut in sorted(set(list(range(0, n, u['step'])) + [n - 1, n])):
            for con in CONS:
                for kw in (0, 1, 2):
                    run(('read', u['n'], u['mode'], cut, con, kw, 9))
            for con in CONS:
                run(('read', u['n'], u['mode'], cut, con, 0, 1))
                run(('read', u['n'], u['mode'], cut, con, 0, 0))
    elif t == 'close':
        ops = [('r', None), ('r', 3), ('l', None), ('l', 2), ('t', None)]
        for d in range(4):
            for seq in itertools.product(ops, repeat=d):
                for block in (1, 5, 16384):
                    run(('close', u['k'], list(seq), block))
    else:
        for framing in ('len', 'chunked', 'close'):
            for post in (0, 20000):
                for stage in STAGES:
                    for end in ENDS:
                        for again in (0, 1):
                            run(('capture', u['ctx'], u['size'], framing, post, stage, end, again, None))
                    if stage in ('rest', 'close'):
                        for filt in ('same', 'none', 'half', 'raise', 'new'):
                            for end in ENDS:
                                run(('capture', u['ctx'], u['size'], framing, post, stage, end, 1, filt))
        for bad in ({'gzip': False, 'bogus': 1}, {'warc_version': 'junk', 'bogus': 1}, {'append': False}, {'append': False, 'gzip': True}, {'digest': 1}):
            run(('badargs', u['ctx'], bad))


def run_case(c):
    return {'cmd': command, 'odd': odd, 'objects': objects, 'write': writing, 'read': reading, 'close': closing, 'capture': capturing, 'badargs': badargs}[c[0]](*c[1:])


class Watch(object):
    """what was opened in its block is closed at the end of it, and not by the garbage collector"""

    def __init__(self, faulty=False):
        self.faulty = faulty

    def __enter__(self):
        gc.collect(0)
        self.fds = fds()
        self.cw = warnings.catch_warnings(record=True)
        self.seen = self.cw.__enter__()
        warnings.simplefilter('always', ResourceWarning)
        return self

    def check(self, what):
        now = fds()
        require(len(now) <= len(self.fds), '%s: open files %s, before %s', what, sorted(now.items()), sorted(self.fds.items()))

    def __exit__(self, et, ev, tb):
        self.cw.__exit__(None, None, None)
        if ev is None:
            if not self.faulty:
                bad = [str(w.message) for w in self.seen if issubclass(w.category, ResourceWarning)]
                require(not bad, 'closed by the garbage collector only: %s', bad)
                self.check('at the end')


def fds():
    out = {}
    for fd in os.listdir('/proc/self/fd'):
        try:
            out[int(fd)] = os.readlink('/proc/self/fd/' + fd)
        except OSError:
            pass
    return out


def args(c, d, offset='0'):
    i, o = d + '/in', d + '/out'
    return {'index': ['index', i], 'index-o': ['index', '-o', o, i], 'index-http': ['index', '-f', 'offset,length,http:status', i], 'index2': ['index', '-o', o, i, d + '/in2'],
            'check': ['check', i], 'check-v': ['check', '-v', i, d + '/in2'], 'extract': ['extract', i, offset], 'extract-payload': ['extract', '--payload', i, offset],
            'extract-headers': ['extract', '--headers', i, offset], 'recompress': ['recompress', i, o], 'recompress-v': ['recompress', '-v', i, o]}[c]


class StdOut(cli._Out):
    ended = False

    def close(self):
        self.ended = True
        cli._Out.close(self)


def execute(argv, stdin=None, faulty=False):
    """runs the command; the descriptors are counted while its exception is still there"""
    import sys
    from warcio.cli import main
    so, se, si = sys.stdout, sys.stderr, sys.stdin
    out, err = StdOut(), StdOut()
    inp = cli._In(stdin if stdin is not None else b'')
    with Watch(faulty) as w:
        sys.stdout, sys.stderr, sys.stdin = out, err, inp
        try:
            main(argv)
            res = 0
        except SystemExit as e:
            res = e.code or 0
            sys.stdout, sys.stderr, sys.stdin = so, se, si
            if not faulty:
                w.check('after %s ended' % argv[0])
        except Exception as e:
            res = type(e).__name__
            sys.stdout, sys.stderr, sys.stdin = so, se, si
            if not faulty:
                w.check('after %s failed with %r' % (argv[0], e))
        finally:
            sys.stdout, sys.stderr, sys.stdin = so, se, si
        if faulty:
            gc.collect()
        w.check('after %s' % argv[0])
    for s, what in ((out, 'output'), (err, 'error output')):
        require(not s.ended and not s.raw_bytes.closed, 'standard %s is closed', what)
    require(not inp.buffer.closed, 'standard input is closed')
    return res


def command(c, names, mode, cut, lim):
    data = data_of(names, mode)[:cut]
    with cli.scratch() as d:
        for f in ('in', 'in2'):
            with open(d + '/' + f, 'wb') as fh:
                fh.write(data)
        soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
        try:
            if lim is not None:
                resource.setrlimit(resource.RLIMIT_FSIZE, (lim, hard))
            # fsspec leaves a file it cannot flush to the garbage collector
            res = execute(args(c, d), faulty=lim is not None)
        finally:
            resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
        if c.startswith('index') and lim is None:
            execute(['index', '-'] + (['-o', d + '/o2'] if cut % 2 else []), data)
    return Out((c, tuple(names), mode, str(res)), nontrivial=bool(names))


def odd(c, what):
    with cli.scratch() as d:
        offset = '0'
        good = data_of(['response'], 'gz')
        with open(d + '/in2', 'wb') as fh:
            fh.write(good)
        if what == 'dir':
            os.mkdir(d + '/in')
        elif what != 'missing':
            with open(d + '/in', 'wb') as fh:
                fh.write({'junk': b'\x1f\x8bjunk', 'empty': b'', 'nothing': b'\r\n' * 9}.get(what, good))
        a = args(c, d, offset='%d' % (len(good) + 5) if what == 'offset' else '0')
        if what == 'out-dir':
            os.mkdir(d + '/out')
        elif what == 'out-missing':
            a = [x.replace(d + '/out', d + '/no/such/out') for x in a]
        res = execute(a)
    return Out((c, what, str(res)), nontrivial=True)


def objects(c, names, mode, cut):
    """the classes behind the commands given streams in place of names"""
    from warcio.checker import Checker
    from warcio.extractor import Extractor
    from warcio.indexer import Indexer
    from warcio.recompressor import Recompressor
    import sys
    data = data_of(names, mode)[:cut]
    got = []
    ends = []
    with cli.scratch() as d:
        with open(d + '/in', 'wb') as fh:
            fh.write(data)
        for given in (False, True):
            src = Tracked(io.BytesIO(data)) if given else d + '/in'
            binary = c == 'recompress'
            raw = io.BytesIO() if binary else io.StringIO()
            dst = Tracked(raw) if given else d + '/out'
            so, se = sys.stdout, sys.stderr
            sys.stdout, sys.stderr = out, err = StdOut(), StdOut()
            end = 'end'
            with Watch() as w:
                try:
                    if c.startswith('index'):
                        Indexer(['offset', 'length', 'http:status'] if c == 'index-http' else ['offset', 'length', 'warc-type'], [src], dst).process_all()
                    elif c == 'check':
                        k = Checker(type('Args', (), dict(inputs=[src], verbose=False)))
                        k.process_all()
                        end = k.exit_value
                    elif c == 'recompress':
                        Recompressor(src, dst).recompress()
                    else:
                        Extractor(src, '0').extract(c != 'extract', False)
                except (SystemExit, Exception) as e:
                    end = type(e).__name__
                finally:
                    sys.stdout, sys.stderr = so, se
            ends.append(end)
            if given:
                same((src.closes, dst.closes), (0, 0), 'closing of the streams given')
                got.append(raw.getvalue() if c != 'check' and not c.startswith('extract') else out.raw_bytes.getvalue())
            elif c.startswith('extract') or c == 'check':
                got.append(out.raw_bytes.getvalue())
            else:
                with open(d + '/out', 'rb' if binary else 'r') as fh:
                    got.append(fh.read())
    require(ends[0] == ends[1], 'ends with %s by name, with %s given a stream', *ends)
    if c == 'recompress':
        # a converted ARC record has a random id
        got = [len(gzip.decompress(x)) if x else 0 for x in got]
    # the second attempt on a single member goes to the same stream
    if c != 'check' and (c, mode) != ('recompress', 'onegz'):
        same(got[1], got[0], 'output')
    return Out((c, tuple(names), mode, str(ends[0])), nontrivial=bool(cut))


class Tracked(object):
    """a stream telling whether it was closed"""
    closes = 0

    def __init__(self, stream):
        self._s = stream
        for n in ('read', 'readline', 'tell', 'seek', 'write', 'flush', 'peek'):
            if hasattr(stream, n):
                setattr(self, n, getattr(stream, n))

    def close(self):
        self.closes += 1


class OutFile(object):
    def __init__(self, k=None):
        self.k = k
        self.closes = self.n = 0
        self.data = b''

    def tick(self):
        if self.k is not None and self.n == self.k:
            self.n += 1
            raise OSError(28, 'No space left on device')
        self.n += 1

    def write(self, b):
        self.tick()
        self.data += b
        return len(b)

    def flush(self):
        self.tick()

    def close(self):
        self.closes += 1


def writing(name, how, kind, known, gzip, big, times, k):
    from warcio.warcwriter import WARCWriter
    spec = build.menu()[name]
    if big:
        spec = spec.with_body(ref.pat(big, 4))
    data = spec.payload(how)
    pay = Tracked(build.stream(kind, data))
    out = OutFile(k if isinstance(k, int) else None)
    before = fds()
    failed = False
    w = WARCWriter(out, gzip=gzip)
    if isinstance(k, int):
        r = build.build(w, spec, how, pay, known)
        try:
            w.write_record(r)
        except OSError:
            failed = True
        same((pay.closes, out.closes), (0, 0), 'closing of payload and output, the write having %s' % ('failed' if failed else 'succeeded'))
        with warnings.catch_warnings():
            warnings.simplefilter('ignore', ResourceWarning)
            del r
        now = fds()
        require(len(now) <= len(before), 'open files %s, before %s', sorted(now.items()), sorted(before.items()))
        return Out((name, how, kind, known, failed), nontrivial=failed)
    with Watch() as wt:
        r = build.build(w, spec, how, pay, known)
        if k == 'pair':
            q = build.build(w, build.menu()['request_post'], 'given', 'unseek', False, uid=3)
            w.write_request_response_pair(q, r)
        else:
            w.write_record(r)
        wt.check('after the write')
        first = out.data
        if times == 2:
            # whatever a second time writes
            w.write_record(r)
            wt.check('after the second write')
            require(out.data.startswith(first), 'what was written before changed')
        same((pay.closes, out.closes), (0, 0), 'closing of payload and output')
        if r.raw_stream is not pay and hasattr(r.raw_stream, 'closed') and kind not in ('limit',):
            require(not r.raw_stream.closed or pay is r.raw_stream, 'the stream of the record is closed')
        del r
    return Out((name, how, kind, known, len(first) > 100), nontrivial=True)


def reading(name, mode, cut, con, kw, stop):
    from warcio.archiveiterator import ArchiveIterator
    from warcio.exceptions import ArchiveLoadFailed
    data = data_of([name] * 2, mode)[:cut]
    fh = Tracked(io.BytesIO(data))
    it = ArchiveIterator(fh, **({}, dict(check_digests=True, arc2warc=True), dict(no_record_parse=True, ensure_http_headers=True))[kw])
    n = 0
    end = 'end'
    try:
        for r in it:
            if n == stop:
                end = 'stop'
                break
            n += 1
            s = r.content_stream() if con == 'content' else r.raw_stream
            if con == 'length':
                it.get_record_length()
            elif con == 'raw5':
                s.read(5)
            elif con != 'skip':
                s.read()
            same(fh.closes, 0, 'closing of the archive when record %d was read' % n)
    except ArchiveLoadFailed:
        end = 'error'
    same(fh.closes, 0, 'closing of the archive at the end')
    for _ in range(2):
        it.close()
        same(fh.closes, 0, 'closing of the archive by closing the iterator')
    del it
    same(fh.closes, 0, 'closing of the archive')
    fh.seek(0)
    same(fh.read(), data, 'the archive read afterwards')
    return Out((name, mode, con, end, n), nontrivial=n > 0)


def closing(kind, seq, block):
    from warcio.bufferedreaders import BufferedReader, ChunkedDataReader
    from warcio.digestverifyingreader import DigestChecker, DigestVerifyingReader
    from warcio.limitreader import LimitReader
    body = b'one\ntwo two two\nthree' * 3
    if kind in ('limit', 'digest'):
        t = Tracked(io.BytesIO(body))
        r = LimitReader(t, 50) if kind == 'limit' else DigestVerifyingReader(t, 50, DigestChecker(), block_digest='sha1:ABC')
    elif kind.startswith('chunked'):
        t = Tracked(io.BytesIO(ref.chunked(ref.gz(body) if kind == 'chunkedgz' else body, [7])))
        r = ChunkedDataReader(t, decomp_type='gzip' if kind == 'chunkedgz' else None, block_size=block)
    elif kind == 'bad':
        t = Tracked(io.BytesIO(ref.gz(body)[:30] + b'\xff' * 40))
        r = BufferedReader(t, decomp_type='gzip', block_size=block)
    else:
        t = Tracked(io.BytesIO(body if kind == 'plain' else ref.compress(kind, body)))
        r = BufferedReader(t, decomp_type={'plain': None, 'rawdeflate': 'deflate'}.get(kind, kind), block_size=block)
    import sys
    se, sys.stderr = sys.stderr, io.StringIO()
    try:
        for o, n in seq:
            r.read(n) if o == 'r' else r.readline(n) if o == 'l' else r.tell()
        same(t.closes, 0, 'closing of the stream by reading')
        r.close()
        same(t.closes, 1, 'closing of the stream by closing the reader')
        if kind not in ('limit', 'digest'):
            r.close()
            same(t.closes, 1, 'closing again')
    finally:
        sys.stderr = se
    return Out((kind, len(seq)), nontrivial=bool(seq))


class Leave(Exception):
    pass


def badargs(ctx, kw):
    from warcio.capture_http import capture_http
    from warcio.warcwriter import WARCWriter
    out = OutFile()
    res = 'fine'
    with cli.scratch() as d:
        with open(d + '/f', 'wb') as fh:
            fh.write(b'there')
        # the writer in memory is of the caller
        with Watch(ctx == 'default') as w:
            try:
                with capture_http(d + '/f' if ctx == 'file' else None if ctx == 'default' else WARCWriter(out), **kw):
                    pass
            except Exception as e:
                res = type(e).__name__
                w.check('after %r' % e)
            w.check('after the context')
        same(out.closes, 0, 'closing of the output of the writer')
        if ctx == 'file':
            with open(d + '/f', 'rb') as fh:
                same(fh.read(), b'there', 'the file')
    return Out((ctx, str(kw), res), nontrivial=res != 'fine')


def capturing(ctx, size, framing, post, stage, end, again, filt):
    from warcio.capture_http import capture_http
    from warcio.warcwriter import WARCWriter
    H = fakenet.H
    body = ref.pat(size, 5)
    resp = {'len': H('HTTP/1.1 200 OK', 'Content-Length: %d' % size) + body, 'chunked': H('HTTP/1.1 200 OK', 'Transfer-Encoding: chunked') + ref.chunked(body, [30000]),
            'close': H('HTTP/1.1 200 OK', 'Connection: close') + body}[framing]
    outer = OutFile()
    out = OutFile()
    exc = {'normal': None, 'Exception': Leave(), 'KeyboardInterrupt': KeyboardInterrupt()}[end]
    done = False
    with cli.scratch() as d:
        base = fds()

        kept = []

        def ff(request, response, recorder):
            kept.append((request, response))
            if filt == 'raise':
                raise Leave('filter')
            if filt == 'new':
                new = recorder.writer.create_warc_record('http://new/', 'resource', payload=build.stream('unseek', b'new'))
                return request, new
            return {'same': (request, response), 'none': (None, None), 'half': (request, None)}[filt]

        ff = ff if filt else None

        def ctx_():
            if ctx == 'default':
                return capture_http(filter_func=ff)
            if ctx == 'file':
                return capture_http(d + '/f.warc', ff, gzip=True)
            return capture_http(WARCWriter(out, gzip=ctx == 'nested'), ff)

        def told(f, *args):
            try:
                f(*args)
            except Leave as x:
                same((str(x), filt), ('filter', 'raise'), 'exception')

        def go():
            c = r = None
            for i in range(1 + again):
                net = fakenet.Net(fakenet.Sock([resp]))
                for st in STAGES[:STAGES.index(stage) + 1]:
                    if st == 'connect':
                        c = net.conn(fakenet.REC, 'e%d.example' % i)
                    elif st == 'send':
                        c.request('POST' if post else 'GET', '/', body=b'x' * post if post else None)
                    elif st == 'begin':
                        r = c.getresponse()
                    elif st == 'part':
                        told(r.read, 10)
                    elif st == 'rest':
                        told(r.read)
                    elif st == 'close':
                        c.close()
                if stage in ('rest', 'close'):
                    now = fds()
                    # the file of the capture, and of the in-memory writer
                    require(len(now) <= len(base) + (ctx in ('default', 'file')), 'open files after exchange %d: %s, before %s', i, sorted(now.items()), sorted(base.items()))
            return c, r

        keep = None
        with Watch(stage not in ('rest', 'close') or ctx == 'default') as w:
            try:
                if ctx == 'nested':
                    with capture_http(WARCWriter(outer)):
                        with ctx_():
                            keep = go()
                            if exc:
                                raise exc
                else:
                    with ctx_():
                        keep = go()
                        if exc:
                            raise exc
            except BaseException as x:
                if x is not exc:
                    raise
        del w
        same((out.closes, outer.closes), (0, 0), 'closing of the output of the writer')
        now = fds()
        if stage in ('rest', 'close') and ctx != 'default':
            require(len(now) <= len(base), 'open files after the context: %s, before %s', sorted(now.items()), sorted(base.items()))
            done = True
        if ctx == 'file':
            for p in now.values():
                require(not p.startswith(d), 'the file is open: %s', p)
        # what was not finished is dropped
        with warnings.catch_warnings():
            warnings.simplefilter('ignore', ResourceWarning)
            del keep
            kept = exc = None
            gc.collect()
        now = fds()
        require(len(now) <= len(base), 'open files when all is dropped: %s, before %s', sorted(now.items()), sorted(base.items()))
    return Out((ctx, size, framing, stage, end, filt), nontrivial=done or stage not in ('rest', 'close'))
