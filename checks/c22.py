"""C22: two independent objects side by side, interleavings of their operations and
every preemptive schedule of two threads within a bound, against each object alone."""
from mc import sched
import io
import itertools
import os
import pickle
import re
from argparse import Namespace

from mc import menu, ref, streams
from mc.core import HarnessError, Out, require, same

ID = 'C22'
LEVEL = 'exploration'
RULE = ('every interleaving of the operations of two objects within the switch bound, for every pair of scripts (kind of object x variant), and every two-thread schedule of the pairs within the '
        'preemption bound; the reference for each script is its own run alone in a fresh process; non-trivial: the interleaving really switches between unfinished objects, '
        'or the preemption took effect')
ASSUMPTIONS = ['The two objects share no stream, file or record.', 'Preemptions happen before source lines of the library; code outside the library and C code run without preemption.']
T = ref.text(90, 2)
RANDOM = re.compile(r'<urn:uuid:(?!00000000)\w{8}-\w{4}-\w{4}-\w{4}-\w{12}>')


def rest(r):
    def f():
        s = r.content_stream()
        return s.read()
    return f


# --- scripts: generators that perform one operation per step and yield what it gave
def hd(h):
    # random record ids of converted ARC records
    return None if h is None else (h.protocol, h.statusline, [(n, RANDOM.sub('<id>', v)) for n, v in h.headers])


def k_iter(v, mode='plain', recs=None, **kw):
    from warcio.archiveiterator import ArchiveIterator
    recs = recs or (['warcinfo', 'resp_chunked_gzip', 'request_post'] if v else ['response', 'metadata', 'resp_latin1'])
    data = ref.layout([(menu.warc_menu() if 'arc_' not in recs[0] else menu.arc_menu())[r] for r in recs], mode)[0]
    it = ArchiveIterator(io.BytesIO(data), **kw)
    yield 'made'
    n = 0
    while True:
        try:
            r = next(it)
        except StopIteration:
            break
        yield r.format, r.rec_type, hd(r.rec_headers), hd(r.http_headers), r.length, r.content_type
        if n == v:
            yield r.content_stream().read(11)
        if n != 2:
            got = r.content_stream().read()
            yield got, r.digest_checker.passed, list(r.digest_checker.problems)
        n += 1
    yield n, it.get_record_offset(), it.err_count


def k_itergz(v):
    return k_iter(v, 'gz')


def k_iterarc(v):
    return k_iter(v, ('plain', 'gz')[v], ['arc_header', 'arc_chunked', 'arc_resp'] if v else ['arc_header_meta', 'arc_resp_space', 'arc_utf8'], arc2warc=bool(v))


def k_digest(v):
    import base64
    import hashlib
    recs = []
    for i, (d, bad) in enumerate([(T, v), (b'x' * 40, 1 - v)]):
        dig = ref.sha1_32(d + (b'!' if bad else b''))
        # another hash for each record of the script, so that none is used twice in it
        alg = ('md5', 'sha256')[(i + v) % 2]
        block = ref.parse_warc(ref.layout([ref.w_response(d, uid=i + 1)])[0])[0].block
        recs.append(ref.w_response(d, uid=i + 1, extra=[('WARC-Payload-Digest', dig), ('WARC-Block-Digest', alg + ':' + hashlib.new(alg, block).hexdigest())]))
    data = ref.layout(recs)[0]
    from warcio.archiveiterator import ArchiveIterator
    it = ArchiveIterator(io.BytesIO(data), check_digests=True)
    for r in it:
        yield hd(r.rec_headers)
        yield r.raw_stream.read(20), r.digest_checker.passed
        yield r.raw_stream.read(), r.digest_checker.passed, list(r.digest_checker.problems)


def k_digreader(v):
    from warcio.digestverifyingreader import DigestChecker, DigestVerifyingReader
    data = T if v else T[::-1]
    c = DigestChecker()
    r = DigestVerifyingReader(io.BytesIO(data), len(data), c, block_digest=ref.sha1_32(data if not v else b''), payload_digest=ref.sha1_32(data[10:]))
    yield c.passed, list(c.problems)
    yield r.read(10)
    r.begin_payload()
    yield r.read(7), c.passed
    yield r.readline(), c.passed
    yield r.read(), c.passed, list(c.problems)


def k_builder(v):
    from warcio.recordbuilder import RecordBuilder
    b = RecordBuilder(**({'warc_version': '1.1'} if v else {}))
    ids = {'WARC-Record-ID': '<urn:uuid:%d>' % v, 'WARC-Date': '2020-01-02T03:04:05Z'}
    yield b.warc_version
    r = b.create_warc_record('http://example.com/%d' % v, 'response', io.BytesIO((b'HTTP/1.1 20%d OK\r\nA: b\r\n\r\n' % v) + T[v:]), warc_headers_dict=ids)
    yield hd(r.rec_headers), hd(r.http_headers), r.content_type
    x = b.create_revisit_record('http://example.com/%d' % v, 'sha1:AB%d' % v, 'http://e/%d' % v, '200%d-01-01T00:00:00Z' % v, warc_headers_dict=dict(ids))
    yield hd(x.rec_headers)
    w = b.create_warcinfo_record('f%d' % v, {'a': 'b%d' % v})
    yield [(n, y) for n, y in w.rec_headers.headers if n not in ('WARC-Date', 'WARC-Record-ID')], w.raw_stream.read()
    r2 = b.create_warc_record('http://example.com/x', ('metadata', 'resource')[v], io.BytesIO(T), length=len(T), warc_headers_dict=ids)
    yield hd(r2.rec_headers), r2.content_type, r2.length
    yield hd(r.rec_headers), r.raw_stream.read()


def k_writer(v, cls=0):
    from warcio.warcwriter import BufferWARCWriter, WARCWriter
    from warcio.statusandheaders import StatusAndHeaders
    out = io.BytesIO()
    kw = dict(gzip=bool(v), warc_version='1.1' if v else None, header_filter=(lambda h: None if h[0] == 'A' else h) if v else None)
    w = BufferWARCWriter(**kw) if cls else WARCWriter(out, **kw)
    get = w.get_contents if cls else out.getvalue
    yield 'made'
    recs = []
    for i in range(2):
        ids = {'WARC-Record-ID': '<urn:uuid:%d%d>' % (v, i), 'WARC-Date': '2020-01-02T03:04:05Z'}
        h = StatusAndHeaders('200 OK', [('A', 'b'), ('X-%d' % v, 'caf\xe9')], protocol='HTTP/1.%d' % v)
        if i and not v:
            h = None
        recs.append(w.create_warc_record('http://example.com/%d' % v, ('response', 'metadata')[i and not v], streams.Unseekable(T[v * 5 + i:]) if v else io.BytesIO(T[i:]),
                                         http_headers=h, warc_headers_dict=ids, length=None if v else len(T) - i))
        yield hd(recs[-1].rec_headers)
    w.write_record(recs[1])
    yield get()
    w.write_record(recs[0])
    yield get(), hd(recs[0].rec_headers)


def k_bufwriter(v):
    return k_writer(v, 1)


def k_pair(v):
    from warcio.warcwriter import BufferWARCWriter
    w = BufferWARCWriter(gzip=False)
    rs = []
    for t in ('request', 'response'):
        rs.append(w.create_warc_record('http://example.com/%s%d' % (t, v), t, io.BytesIO((b'HTTP/1.1 200 OK' if t == 'response' else b'GET / HTTP/1.1') + b'\r\nA: %d\r\n\r\nbody' % v),
                                       warc_headers_dict={'WARC-Record-ID': '<urn:uuid:%s%d>' % (t, v), 'WARC-Date': '202%d-01-02T03:04:05Z' % v}))
        yield hd(rs[-1].rec_headers)
    w.write_request_response_pair(*rs)
    yield w.get_contents()
    yield w.get_stream().read()


def k_buffered(v):
    from warcio.bufferedreaders import DecompressingBufferedReader
    data = T * 3
    enc = ref.gz(data) + ref.gz(b'next member\n') if v else ref.deflate(data)
    r = DecompressingBufferedReader(streams.Unseekable(enc), block_size=16 + v, decomp_type='gzip' if v else 'deflate')
    yield r.readline()
    yield r.read(5)
    yield r.readline(4), r.tell()
    yield b''.join(iter(lambda: r.read(100), b''))
    yield r.read_next_member(), r.read(3)
    yield r.readline(), r.rem_length()


def k_brotli(v):
    from warcio.bufferedreaders import DecompressingBufferedReader
    r = DecompressingBufferedReader(io.BytesIO(ref.br(T * 2) if v else ref.rawdeflate(T * 2)), block_size=20, decomp_type='br' if v else 'deflate')
    for n in (3, 1, 50):
        yield r.read(n)
    yield r.readline()
    yield r.read()


def k_chunked(v):
    from warcio.bufferedreaders import ChunkedDataReader
    r = ChunkedDataReader(io.BytesIO((ref.chunked(T, [7, 20 + v]) if v else ref.chunked(ref.gz(T), [9])) + b'more'), raise_exceptions=bool(v), decomp_type=None if v else 'gzip')
    yield r.read(3)
    yield r.readline()
    yield r.read(40)
    yield b''.join(iter(r.read, b''))
    yield r.read()


def k_limit(v):
    from warcio.limitreader import LimitReader
    r = LimitReader(io.BytesIO(T), 30 + v)
    yield r.read(4 + v), r.tell()
    yield r.readline(), r.tell()
    yield r.readline(3), r.limit
    yield r.read(), r.tell()


def k_headers(v):
    from warcio.statusandheaders import StatusAndHeaders
    h = StatusAndHeaders('200 OK' if v else '404 Not', [('A', 'b'), ('Content-Type', 'x/%d' % v)], protocol='HTTP/1.%d' % v)
    h.add_header('X-%d' % v, 'caf\xe9' if v else 'y')
    yield str(h)
    h.replace_header('a', 'c%d' % v)
    yield h.get_header('A'), h.get_statuscode()
    h.add_range(v, 3, 10)
    yield hd(h)
    yield h.remove_header('content-type'), str(h)
    h.compute_headers_buffer(lambda x: x if x[0] != 'X-0' else None)
    yield h.headers_buff, h.to_ascii_bytes()
    yield h.to_bytes()


def k_parser(v):
    from warcio.statusandheaders import StatusAndHeadersParser
    p = StatusAndHeadersParser(['HTTP/1.0', 'HTTP/1.1'] if v else ['WARC/1.0'])
    s = io.BytesIO(b'%s\r\nA: b%d\r\n c\r\nD:%d\r\n\r\nE: f\r\n\r\nrest' % (b'HTTP/1.1 200 OK' if v else b'WARC/1.0', v, v))
    h = p.parse(s)
    yield hd(h), h.total_len
    h.add_header('Z', 'z')
    h2 = p.parse(s, full_statusline='HTTP/1.0 304 No' if v else 'WARC/1.0')
    yield hd(h2), h2.total_len
    yield hd(h), s.read()


def k_index(v):
    from warcio.indexer import Indexer
    ix = Indexer('offset,length,warc-type,http:status,http:content-type,filename' if v else 'warc-record-id,offset', ['a%d' % v], '-')
    out = io.StringIO()
    m = menu.warc_menu()
    data = ref.layout([m[r] for r in (['response', 'revisit_headers', 'metadata'] if v else ['warcinfo', 'resp_gzip'])], ('plain', 'gz')[v])[0]
    yield ix.fields
    ix.process_one(io.BytesIO(data), out, '/x/file%d' % v)
    yield out.getvalue()


def k_time(v):
    from warcio import timeutils as t
    yield t.timestamp_to_datetime('2020021%d' % v), t.iso_date_to_timestamp('20%d2-02-03T04:05:06Z' % v)
    yield t.http_date_to_timestamp('Thu, 26 Dec 2013 09:5%d:10 GMT' % v), t.timestamp_to_iso_date('2013122%d' % v)
    yield t.datetime_to_http_date(t.timestamp_to_datetime('20131226095010')), t.pad_timestamp('2%d' % v)


KINDS = dict((n[2:], f) for n, f in list(globals().items()) if n.startswith('k_'))
SCRIPTS = [(k, v) for k in sorted(KINDS) for v in (0, 1)]
BASE = {}
SMALL = ['limit', 'headers', 'parser', 'digreader', 'builder', 'brotli', 'buffered', 'chunked', 'time']
TWICE = ['writer', 'bufwriter', 'buffered', 'brotli', 'chunked', 'digreader']
SW = ((3, 4), (4, 8))        # switches: other kinds, same kind; quick, thorough


def gen(sc):
    """the script as a generator of outcomes, exceptions included"""
    g = KINDS[sc[0]](sc[1])
    while True:
        try:
            x = next(g)
        except StopIteration:
            return
        except Exception as e:
            yield repr(e)
            return
        yield x


def base(sc):
    """the outcomes of the script alone in a fresh process"""
    sc = tuple(sc)
    if sc not in BASE:
        r, w = os.pipe()
        pid = os.fork()
        if not pid:
            try:
                os.close(r)
                with os.fdopen(w, 'wb') as f:
                    pickle.dump(list(gen(sc)), f)
            finally:
                os._exit(0)
        os.close(w)
        with os.fdopen(r, 'rb') as f:
            data = f.read()
        os.waitpid(pid, 0)
        if not data:
            raise HarnessError('no result of %r alone' % (sc,))
        BASE[sc] = pickle.loads(data)
    return BASE[sc]


def BOUNDS(tier):
    th = tier == 'thorough'
    return dict(kinds=sorted(KINDS), scripts=len(SCRIPTS), switches_between_operations='%d for all pairs of scripts, %d for those of one kind' % SW[th],
                preemptions={'line': '1, all pairs of scripts' if th else '1, pairs of the same kind: the two variants; the second one twice: %s' % TWICE, 'call': '2, pairs of the same kind of %s' % SMALL if th else 'none'})


def units(tier):
    for sc in SCRIPTS:
        base(sc)
    out = []
    for a, b in itertools.combinations_with_replacement(SCRIPTS, 2):
        out.append(dict(a=a, b=b, how='ops', n=SW[tier == 'thorough'][a[0] == b[0]]))
        if a[0] == b[0] and (a[1] != b[1] or b[1] and a[0] in TWICE) or tier == 'thorough':
            for r in range(8):
                out.append(dict(a=a, b=b, how='line', n=1, r=r, m=8))
        if tier == 'thorough' and a[0] == b[0] and a[0] in SMALL:
            for r in range(8):
                out.append(dict(a=a, b=b, how='call', n=2, r=r, m=8))
    return out


def parts(n, k):
    """n as a sum of k positive numbers"""
    for cuts in itertools.combinations(range(1, n), k - 1):
        c = (0,) + cuts + (n,)
        yield [y - x for x, y in zip(c, c[1:])]


def orders(n, m, switches):
    """interleavings of n and m operations with at most that many switches between the two"""
    for s in range(1, min(switches, 2 * min(n, m)) + 1):
        for first in (0, 1):
            num = [n, m]
            k = [s // 2 + 1, (s + 1) // 2]       # runs of the first and of the other one
            for x in parts(num[first], k[0]):
                for y in parts(num[1 - first], k[1]):
                    out = []
                    for i in range(s + 1):
                        out += [first if i % 2 == 0 else 1 - first] * (x, y)[i % 2][i // 2]
                    yield out


def explore(u, run):
    a, b = tuple(u['a']), tuple(u['b'])
    if u['how'] == 'ops':
        # one more step: running into the end
        for s in orders(len(base(a)) + 1, len(base(b)) + 1, u['n']):
            run((a, b, 'ops', s))
        return
    threads(a, b, u['how'], 0, {})

    def measure(first, plan):
        return threads(a, b, u['how'], first, plan)[0].owners
    for first, plan in sched.plans(measure, 2, u['n'], u['r'], u['m']):
        run((a, b, u['how'], (first, sorted(plan.items()))))


def threads(a, b, gran, first, plan):
    logs = [[], []]

    def go(i, sc):
        def fn():
            for x in gen(sc):
                logs[i].append(x)
        return fn
    return sched.Sched([go(0, a), go(1, b)], first, plan, gran).run(), logs


def run_case(c):
    a, b, how, plan = tuple(c[0]), tuple(c[1]), c[2], c[3]
    want = [base(a), base(b)]
    if how == 'ops':
        gs = [gen(a), gen(b)]
        logs = [[], []]
        for i in plan:
            try:
                logs[i].append(next(gs[i]))
            except StopIteration:
                pass
        switches = sum(x != y for x, y in zip(plan, plan[1:]))
        nontrivial = switches > 1
        n = len(plan)
    else:
        s, logs = threads(a, b, how, plan[0], dict((int(k), t) for k, t in plan[1]))
        nontrivial = s.taken == len(plan[1]) and bool(plan[1])
        n = s.n
    for i, sc in enumerate((a, b)):
        for k, (g, w) in enumerate(zip(logs[i], want[i])):
            require(g == w, '%r beside %r: operation %s gives %r, alone %r', sc, (b, a)[i], k, g, w)
        same(len(logs[i]), len(want[i]), '%r: operations performed' % (sc,))
    return Out((a[0], b[0], how), nontrivial=nontrivial, transitions=n, states=[(a, b, how, str(plan))])
