"""A battery of everything the library does, for comparing processes run in different ways
(see C36).  Run with: python [flags] battery.py OUT MODE [FIRST-MODULE]; writes {scenario: text}
to OUT.  Judges nothing and uses no assertions."""
import io
import json
import os
import re
import sys


def outcome(fn, *a, **kw):
    try:
        return fn(*a, **kw)
    except SystemExit as e:
        return 'exit %s' % e.code
    except Exception as e:
        return '%s: %s' % (type(e).__name__, e)


def archives():
    from mc import menu, ref
    m = menu.warc_menu()
    recs = [m[k] for k in ('warcinfo', 'response', 'resp_chunked_gzip', 'request_post', 'revisit_headers', 'resp_utf8', 'resource', 'empty_resource')]
    good = ref.w_response(b'abc', uid=90)
    good.headers.append(('WARC-Payload-Digest', ref.sha1_32(b'abc')))
    bad = ref.w_response(b'abc', uid=91)
    bad.headers.append(('WARC-Payload-Digest', ref.sha1_32(b'abd')))
    bad.headers.append(('WARC-Block-Digest', 'none:' + 'A' * 32))
    spaced = ref.warc('resource', '<http://e/a b>', b'xyz', uid=92)
    # chunked coding of every doubtful sort
    odd = [ref.w_response(b, uid=93 + i, headers=[('Transfer-Encoding', 'chunked')]) for i, b in enumerate(
        [b'-3\r\nabcd\r\n', b'3zabc\r\n0\r\n\r\n', b'3aabc\r\n', b'80000001\r\nabc', b'3\r\nabc\r\n2\r\nx', b'3\nabc\r\n0\r\n\r\n', b'3\r\nabcX\r\n0\r\n\r\n', b'0\r\nno\r\n', b'3 \r\nabc\r\n0\r\n\r\n'])]
    recs = recs + [good, bad, spaced] + odd
    plain, spans = ref.layout(recs, 'plain')
    gz = ref.layout(recs, 'gz')[0]
    am = menu.arc_menu()
    arc = [am[k] for k in list(am)[:6]]
    out = {'plain': plain, 'gz': gz, 'onegz': ref.layout(recs[:3], 'onegz')[0], 'arc': ref.layout(arc, 'plain')[0], 'arcgz': ref.layout(arc, 'gz')[0], 'empty': b'', 'junk': b'caf\xc3\xa9 is no archive\r\n',
           'tail': ref.layout(recs[:2], 'plain')[0] + b'more\r\nthan that\r\n', 'extra': plain[:spans[0][1]] + b'not blank\r\n\r\n' + plain[spans[1][0]:spans[1][1]],
           'badgz': gz[:len(gz) // 2] + b'\0' * 99, 'cut': plain[:spans[1][1] - 20], 'cutgz': gz[:-30]}
    return out


def read(data, **kw):
    from warcio.archiveiterator import ArchiveIterator
    out = []

    def go():
        it = ArchiveIterator(io.BytesIO(data), **kw)
        for r in it:
            body = outcome(lambda: r.content_stream().read())
            mask = [(n, 'ID' if n == 'WARC-Record-ID' and kw.get('arc2warc') else v) for n, v in r.rec_headers.headers]
            out.append((r.format, r.rec_type, r.content_type, r.length, r.payload_length, r.rec_headers.protocol, mask, r.http_headers and (r.http_headers.protocol, r.http_headers.statusline, r.http_headers.headers),
                        body, it.get_record_offset(), it.get_record_length(), r.digest_checker.passed, r.digest_checker.problems))
        return it.err_count
    return outcome(go), out


def reading(put):
    for name, data in archives().items():
        for kw in ({}, {'no_record_parse': True}, {'verify_http': True}, {'arc2warc': True, 'ensure_http_headers': True}, {'check_digests': True}, {'check_digests': 'log'}, {'check_digests': 'raise'}, {'block_size': 7}):
            put('read %s %s' % (name, sorted(kw.items())), read(data, **kw))


def writing(put):
    from mc import build
    from warcio.warcwriter import WARCWriter, BufferWARCWriter
    for name, spec in build.menu().items():
        for how in build.hows(spec):
            for kind in ('bytes', 'offset', 'unseek5'):
                for known in (True, False):
                    def go():
                        out = io.BytesIO()
                        w = WARCWriter(out, gzip=kind == 'offset', warc_version='1.1' if known else None)
                        for uid in (1, 2):
                            r = build.build(w, spec, how, kind, known, uid)
                            if spec.auto:
                                r.rec_headers.replace_header('WARC-Record-ID', 'ID')
                                r.rec_headers.replace_header('WARC-Date', 'DATE')
                            w.write_record(r)
                        return out.getvalue()
                    put('write %s %s %s %s' % (name, how, kind, known), outcome(go))

    def pair():
        w = BufferWARCWriter(gzip=False)
        req = build.build(w, build.menu()['request_post'], 'given', 'bytes', True, 1)
        resp = build.build(w, build.menu()['response'], 'given', 'bytes', False, 2)
        w.write_request_response_pair(req, resp)
        r = w.create_warcinfo_record('f.warc', {'software': 'mc', 'n': 1, 'd': 1.5, 'e': ''})
        for n in ('WARC-Record-ID', 'WARC-Date'):
            r.rec_headers.replace_header(n, 'x')
        w.write_record(r)
        w.write_record(w.create_revisit_record('http://e/', 'sha1:A', 'http://f/', '2020-01-01T00:00:00Z', warc_headers_dict={'WARC-Record-ID': 'x', 'WARC-Date': 'y'}))
        return w.get_contents()
    put('write pair', outcome(pair))
    def many():
        # more than a few of everything
        names = ['n%d' % (i * 7919 % 101) for i in range(24)] + ['software', 'format', 'isPartOf', 'Robots', 'ro\xe9', '']
        w = BufferWARCWriter(gzip=False)
        r = w.create_warcinfo_record('f.warc', {n: 'v ' + n for n in names})
        for n in ('WARC-Record-ID', 'WARC-Date'):
            r.rec_headers.replace_header(n, 'x')
        w.write_record(r)
        extra = {'X-' + n: n for n in names if n}
        extra.update({'WARC-Record-ID': 'x', 'WARC-Date': 'y', 'WARC-Concurrent-To': 'z'})
        w.write_record(w.create_warc_record('http://e/', 'resource', payload=io.BytesIO(b'abc'), warc_headers_dict=extra))
        h = StatusAndHeaders('200 OK', {n: n for n in names if n}, protocol='HTTP/1.1')
        w.write_record(w.create_warc_record('http://e/', 'response', payload=io.BytesIO(b'abc'), http_headers=h, warc_headers_dict={'WARC-Record-ID': 'x', 'WARC-Date': 'y'}))
        w.write_record(w.create_revisit_record('http://e/', 'sha1:A', 'http://f/', '2020-01-01T00:00:00Z', http_headers=h, warc_headers_dict=extra))
        return w.get_contents()
    from warcio.statusandheaders import StatusAndHeaders
    put('write many', outcome(many))
    w = BufferWARCWriter()
    put('revisit without digest', str(outcome(w.create_revisit_record, 'http://e/', '', 'http://e/', '2020-01-01T00:00:00Z'))[:30])
    import calendar
    import time
    for v in ('1.0', '1.1'):
        d = BufferWARCWriter(warc_version=v).curr_warc_date()
        put('now %s' % v, (len(d), abs(calendar.timegm(time.strptime(d[:19], '%Y-%m-%dT%H:%M:%S')) - time.time()) < 60))
    ids = [w.create_warc_record('http://e/', 'resource').rec_headers.get_header('WARC-Record-ID') for _ in range(20)]
    put('ids', (len(set(ids)), [bool(re.match('<urn:uuid:[0-9a-f]{8}(-[0-9a-f]{4}){3}-[0-9a-f]{12}>$', i)) for i in ids]))


def streams(put):
    from mc import ref
    from warcio.bufferedreaders import BufferedReader, ChunkedDataReader, DecompressingBufferedReader
    from warcio.limitreader import LimitReader
    for i, data in enumerate([b'3\r\nabc\r\n0\r\n\r\n', b'-3\r\nabcd\r\n', b'3aabc\r\n', b'3aabc', b'3', b'80000001\r\nabc', b'3\r\nabcX\r\n', b'3;x\r\nabc\r\n0\r\nA: b\r\n\r\n', b'0\r\nno\r\n', b'g\r\n', b'', b'3 \r\nabc\r\n0\r\n\r\n',
                              b'3\nabc', b'x' * 70 + b'\r\n', b'3\r\nab', ref.chunked(ref.gz(b'abc' * 50), [9])]):
        for r in (False, True):
            put('chunked %d %s' % (i, r), outcome(lambda: ChunkedDataReader(io.BytesIO(data), raise_exceptions=r).read()))
        put('chunked gzip %d' % i, outcome(lambda: ChunkedDataReader(io.BytesIO(data), decomp_type='gzip').read()))
    for kind in ('gzip', 'deflate', 'rawdeflate', 'br'):
        d = ref.compress(kind, b'some text ' * 20)
        put('decode ' + kind, outcome(lambda: BufferedReader(io.BytesIO(d), decomp_type=kind.replace('raw', '')).read()))
        put('decode cut ' + kind, outcome(lambda: BufferedReader(io.BytesIO(d[:-5]), decomp_type=kind.replace('raw', '')).read()))
    put('unsupported', outcome(lambda: BufferedReader(io.BytesIO(b'x'), decomp_type='zip')))
    put('members', outcome(lambda: DecompressingBufferedReader(io.BytesIO(ref.gz(b'a\n') + ref.gz(b'b')), read_all_members=True).read()))
    put('broken', outcome(lambda: DecompressingBufferedReader(io.BytesIO(ref.gz(ref.pat(900))[:300] + b'\0' * 500), block_size=64).read()))
    put('limit', outcome(lambda: LimitReader(io.BytesIO(b'abcdef'), 4).read(-1)))


def headers(put):
    from warcio.statusandheaders import StatusAndHeaders, StatusAndHeadersParser
    from warcio.utils import headers_to_str_headers
    for s in ('200 OK', '-5 OK', '0 x', 'abc', '', '007', ' 5', '+7 x', '1_0', '\u0665 x'):
        h = StatusAndHeaders(s, [('A', 'b')], protocol='HTTP/1.0')
        put('status %r' % s, (outcome(h.validate_statusline, '204 no'), h.statusline))
    for v in ('caf\xe9', 'a; b="caf\xe9"', "a; b='\u4e2d'; c", 'I\u0130i\u0131', '%41\xe9', 'a=\xe9'):
        h = StatusAndHeaders('200 ' + v, [('X-I', v), ('x-i', 'b'), ('CONTENT-TITLE', v)], protocol='HTTP/1.0')
        put('non-ascii %r' % v, (outcome(h.to_ascii_bytes), outcome(h.to_bytes, encoding='utf-8'), outcome(str, h), h.get_header('x-I'), h.get_header('content-title')))
    h = StatusAndHeaders('200 OK', [('A', 'b'), ('a', 'c'), ('B', '')], protocol='HTTP/1.0')
    put('map', (h['A'], 'a' in h, 'C' in h, h.replace_header('a', 'd'), h.remove_header('B'), h.headers, h.add_range(1, 2, 3) and h.to_bytes()))
    for raw in (b'HTTP/1.0 200 OK\r\nA: b\r\n c\r\nCaf\xc3\xa9: \xe9\r\n\r\n', b'HTTP/1.0 200 OK\n\n', b'\r\n', b'', b'X'):
        for verify in (True, False):
            put('parse %r %s' % (raw, verify), outcome(lambda: repr(StatusAndHeadersParser(['HTTP/1.0'], verify=verify).parse(io.BytesIO(raw)).headers)))
    put('str headers', headers_to_str_headers({b'a': b'\xe9', 'b': 'c'}))


def dates(put):
    from datetime import datetime, timedelta, timezone
    from warcio import timeutils as t
    for y, mo, d, h in ((1970, 1, 1, 0), (1999, 12, 31, 23), (2024, 3, 10, 2), (2024, 11, 3, 1), (2038, 1, 19, 3), (2000, 2, 29, 12), (2024, 7, 1, 0)):
        dt = datetime(y, mo, d, h, 30, 5, 123456)
        iso = outcome(t.datetime_to_iso_date, dt, use_micros=True)
        http = outcome(t.datetime_to_http_date, dt)
        ts = outcome(t.datetime_to_timestamp, dt)
        put('dates %s' % dt, (iso, http, ts, outcome(t.iso_date_to_datetime, iso), outcome(t.http_date_to_datetime, http), outcome(t.timestamp_to_datetime, ts), outcome(t.timestamp_to_datetime, ts, True), outcome(t.timestamp_to_sec, ts),
                              outcome(t.timestamp_to_http_date, ts), outcome(t.timestamp_to_iso_date, ts), outcome(t.http_date_to_timestamp, http), outcome(t.iso_date_to_timestamp, iso), outcome(t.sec_to_timestamp, 1700000000 + h),
                              outcome(t.datetime_to_iso_date, dt.replace(tzinfo=timezone(timedelta(hours=5, minutes=30)))), outcome(t.http_date_to_datetime, http, True)))
        put('long http %s' % dt, outcome(t.http_date_to_datetime, dt.strftime('%A, %d-') + ['Jan', 'Feb', 'Mar', 'Apr', 'May', 'Jun', 'Jul', 'Aug', 'Sep', 'Oct', 'Nov', 'Dec'][mo - 1] + dt.strftime('-%Y %H:%M:%S GMT')))
    for p in ('2', '20', '201', '2014', '20140', '201402', '2014023', '20140230'):
        put('pad ' + p, (outcome(t.timestamp_to_datetime, p), outcome(t.pad_timestamp, p)))
    import time
    from datetime import datetime as D
    put('now', [abs((D.strptime(x[:14], '%Y%m%d%H%M%S') - D(1970, 1, 1)).total_seconds() - time.time()) < 60 for x in (t.timestamp_now(), t.timestamp20_now())])


class Std(io.TextIOWrapper):
    def __init__(self):
        self.raw_bytes = io.BytesIO()
        super().__init__(self.raw_bytes, encoding='utf-8', newline='', write_through=True)


def commands(put, scratch):
    from warcio.cli import main
    for name, data in archives().items():
        src, dst = scratch + '/' + name, scratch + '/made'
        with open(src, 'wb') as fh:
            fh.write(data)
        for args in (['index', src], ['index', '-f', 'filename,offset,length,warc-target-uri,http:status,http:x-u,http:content-type', '-o', dst, src], ['check', src], ['check', '-v', src], ['recompress', src, dst],
                     ['recompress', '-v', src, dst], ['extract', src, '0'], ['extract', '--payload', src, '0'], ['extract', '--headers', src, '0']):
            if args[:2] == ['recompress', '-v'] and name in ('junk', 'badgz', 'tail'):
                continue
            out, was = Std(), sys.stdout
            sys.stdout = out
            try:
                res = outcome(main, args)
            finally:
                sys.stdout = was
            made = None
            if os.path.exists(dst):
                with open(dst, 'rb') as fh:
                    made = fh.read()
                os.unlink(dst)
                if args[0] == 'recompress':
                    made = read(made)
                    # records of an ARC file get new ids
                    made = re.sub('<urn:uuid:[-0-9a-f]*>|[0-9]+, [0-9]+, None, \\[\\]', '', repr(made)) if name.startswith('arc') else made
            text = out.raw_bytes.getvalue().decode('utf-8').replace(scratch, '')
            if name.startswith('arc') and args[0] == 'recompress':
                text = re.sub('"offset": "[0-9]*"', '', text)
            put('command %s %s' % (' '.join(args[:2]).replace(scratch, ''), name), (res, text, made))


def capturing(put):
    from mc import fakenet
    for rname in ('len', 'chunked', 'continue', 'http10', '204', 'cut-len'):
        for q in ('get', 'post-bytes', 'abs', 'post-file-chunked'):
            m = dict(fakenet.resp_menu())
            m.update({k: (None, v, None) for k, v in list(fakenet.bad_menu().items()) + list(fakenet.cut_menu().items())})
            data = m[rname][1]

            def go():
                with fakenet.CAP.capture_http() as w:
                    c = fakenet.Net(fakenet.Sock([data])).conn(fakenet.REC)
                    fakenet.req_menu()[q][2](c)
                    r = c.getresponse()
                    got = outcome(r.read)
                    r.close()
                    c.close()
                return got, re.sub(b'(WARC-(Record-ID|Date|Concurrent-To)): [^\r]*', b'\\1', w.get_contents())
            put('capture %s %s' % (q, rname), outcome(go))


def run(out_path, scratch):
    res = {}

    def put(k, v):
        res[k] = repr(v)
    reading(put)
    writing(put)
    streams(put)
    headers(put)
    dates(put)
    commands(put, scratch)
    capturing(put)
    with open(out_path, 'w', encoding='ascii') as fh:
        json.dump(res, fh)


def start():
    verif, repo, out, scratch, how, first = sys.argv[1:7]
    sys.path[:0] = [verif, repo]
    if first:
        __import__(first)
    import warcio.capture_http
    if how == 'setlocale':
        import locale
        locale.setlocale(locale.LC_ALL, '')
    elif how == 'gc':
        import gc
        gc.set_threshold(1)
    elif how == 'nogc':
        import gc
        gc.disable()
    if how == 'thread':
        import threading
        t = threading.Thread(target=run, args=(out, scratch))
        t.start()
        t.join()
    elif how == 'fork':
        import warcio.cli
        import warcio.warcwriter
        pid = os.fork()
        if not pid:
            try:
                run(out, scratch)
            finally:
                os._exit(0)
        os.waitpid(pid, 0)
    elif how == 'coroutine':
        import asyncio

        async def go():
            run(out, scratch)
        asyncio.run(go())
    else:
        run(out, scratch)


if __name__ == '__main__':
    start()
