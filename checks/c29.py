"""C29: every combination of the reading options x every record kind of both formats,
with every form of a missing or wrong length and of an unusual first HTTP line."""
import functools
import io
import itertools
import sys

from checks import c16
from mc import menu, ref
from mc.core import Out, Violation, require, same

ID = 'C29'
LEVEL = 'exploration'
RULE = ('all combinations of no_record_parse, ensure_http_headers, verify_http, arc2warc, check_digests and block size x every record kind alone and between others x storage; '
        'non-trivial: a record was delivered')
ASSUMPTIONS = ['A record without a length is the last of its file or gzip member.', 'Records hold correct digests or none.']
LINES = ['HTTP/1.1 200 OK', 'HTTP/1.0 404 Not Found', 'http/1.1 200 ok', 'HTTP/1.1', 'HTTP/2 200', 'ICY 200 OK', 'GET / HTTP/1.1', 'garbage', '200 OK', '-']
VERBS = ['GET / HTTP/1.1', 'get /', 'HEAD / HTTP/1.0', 'POST /x HTTP/1.1', 'PUT / HTTP/1.1', 'DELETE / HTTP/1.1', 'TRACE / HTTP/1.1', 'OPTIONS * HTTP/1.1', 'CONNECT h:1 HTTP/1.1', 'PATCH / HTTP/1.1',
         'PROPFIND / HTTP/1.1', 'QUERY /', 'HTTP/1.1 200 OK', 'garbage']
OKV = tuple(v.split(' ')[0] for v in VERBS[:10] if v != 'get /')
URIS = ['http://example.com/', 'https://example.com/', 'ftp://example.com/', 'dns:example.com', 'httpx://x', 'urn:http:', None, '<http://example.com/>', 'http://example.com/a b', '<http://example.com/a b c>', '<', '<>', '>http://<', '< http://e/ >',
        'file:///http:', 'http://e/ ', '<http://e/', 'http://e/>']
LENGTHS = ['none', '-1', 'abc', '1e3', '', '99999999999999999999', ' 5 ', '+5', '05']
OPTS = [dict(zip(('no_record_parse', 'ensure_http_headers', 'verify_http', 'arc2warc', 'check_digests'), v))
        for v in itertools.product((False, True), (False, True), (False, True), (False, True), (False, True, 'raise', 'log'))]


@functools.lru_cache(None)
def menus():
    m = {}
    m.update(menu.warc_menu())
    m.update(menu.arc_menu())
    T = ref.text(60, 3)
    for i, ln in enumerate(LINES):
        hb = ref.http_block(ln, [('Content-Type', 'text/html'), ('X', 'y')])
        p, _, s = ln.partition(' ')
        for rt in ('response', 'revisit'):
            m['%s%d' % (rt, i)] = ref.warc(rt, 'http://example.com/', T, hb, (p, s.strip(), [('Content-Type', 'text/html'), ('X', 'y')]), ctype='application/http; msgtype=response')
        m['arc%d' % i] = ref.arc_doc(T, 'http://example.com/', hb, (p, s.strip(), [('Content-Type', 'text/html'), ('X', 'y')]))
    for i, ln in enumerate(VERBS):
        hb = ref.http_block(ln, [('Host', 'h')])
        p, _, s = ln.partition(' ')
        m['request%d' % i] = ref.warc('request', 'http://example.com/', T, hb, (p, s.strip(), [('Host', 'h')]), ctype='application/http; msgtype=request')
    for i, uri in enumerate(URIS):
        for rt in ('response', 'resource', 'metadata'):
            hs = [('Content-Type', 'text/html')]
            m['uri%d%s' % (i, rt)] = ref.warc(rt, uri, T, ref.http_block('HTTP/1.1 200 OK', hs), ('HTTP/1.1', '200 OK', hs), ctype='application/http; msgtype=response')
    for i, ln in enumerate(LENGTHS):
        for kind in ('response', 'resource_w', 'revisit'):
            if ln.strip(' +0') == '5' and kind != 'resource_w':
                continue
            hs = [('Content-Type', 'text/html')]
            if kind == 'response':
                r = ref.warc('response', 'http://example.com/', T, ref.http_block('HTTP/1.1 200 OK', hs), ('HTTP/1.1', '200 OK', hs), ctype='application/http; msgtype=response')
            elif kind == 'revisit':
                r = ref.warc('revisit', 'http://example.com/', b'', ref.http_block('HTTP/1.1 304 Not', hs), ('HTTP/1.1', '304 Not', hs), ctype='application/http; msgtype=response')
            else:
                r = ref.warc('resource', 'http://example.com/', b'12345', ctype='text/plain')
            r.headers = [h for h in r.headers if h[0] != 'Content-Length'] + ([] if ln == 'none' else [('Content-Length', ln)])
            m['len%d%s' % (i, kind)] = r
    nt = ref.warc('resource', 'http://example.com/', b'no type', ctype=None)
    m['no_ctype'] = nt
    for k in list(m):
        r = m[k]
        if r.fmt == 'warc' and not k.startswith('len'):
            d = ref.Rec(r.fmt, r.rec_type, r.headers + [('WARC-Block-Digest', ref.sha1_32(r.block)), ('WARC-Payload-Digest', ref.sha1_32(r.body if http_of(r) else r.block))],
                        r.httpblock, r.http, r.body, r.version, r.content)
            m[k + '+d'] = d
    return m


def http_of(r):
    """the HTTP headers a reader that parses them finds"""
    if r.fmt == 'arc':
        return r.http
    if r.rec_type not in ('response', 'request', 'revisit') or not r.block:
        return None
    uri = fixed(r.get('WARC-Target-URI'))
    if not uri or not uri.startswith(('http:', 'https:')):
        return None
    return r.http


def fixed(uri):
    if uri is not None:
        uri = uri.strip(' ')
        if uri.startswith('<') and uri.endswith('>'):
            uri = uri[1:-1]
        uri = uri.replace(' ', '%20')
    return uri


def verified(r):
    """the first HTTP line is of the kind expected"""
    first = ' '.join(x for x in r.http[:2]).upper()
    return first.startswith(OKV if r.rec_type == 'request' else ('HTTP/1.0', 'HTTP/1.1'))


def BOUNDS(tier):
    return dict(option_combinations=len(OPTS), records=len(menus()), http_first_lines=LINES + VERBS, uris=URIS, lengths=LENGTHS)


def units(tier):
    return [dict(n=n, full=tier == 'thorough') for n in menus()]


def explore(u, run):
    n = u['n']
    rec = menus()[n]
    others = ['arc_resp'] if rec.fmt == 'arc' else ['response', 'metadata+d']
    for i in range(len(OPTS)):
        for mode in ('plain', 'gz'):
            for block in (16384, 7) if u['full'] or i % 4 == 1 else (16384,):
                if n.startswith('len'):
                    for lst in ([n], [others[0], n]) + (([n, others[0]],) if mode == 'gz' else ()):
                        run((lst, mode, i, block))
                else:
                    for o in others:
                        for lst in ([n], [n, o], [o, n], [o, n, o]):
                            run((lst, mode, i, block))


def stored_length(r):
    v = r.get('Content-Length') if r.fmt == 'warc' else str(len(r.block))
    if v is None:
        return None
    try:
        n = int(v)
    except ValueError:
        return 0
    return n if 0 <= n <= sys.maxsize else 0


def run_case(c):
    names, mode, oi, block = c
    from warcio.archiveiterator import ArchiveIterator
    from warcio.exceptions import ArchiveLoadFailed
    from warcio.statusandheaders import StatusAndHeadersParserException
    opts = OPTS[oi]
    recs = [menus()[n] for n in names]
    data, spans = ref.layout(recs, mode)
    it = ArchiveIterator(io.BytesIO(data), block_size=block, **opts)
    err = sys.stderr
    sys.stderr = io.StringIO()
    n = 0
    want_end = 'end'
    for i, r in enumerate(recs):
        if opts['verify_http'] and not opts['no_record_parse'] and http_of(r) and stored_length(r) != 0 and not verified(r):
            want_end = (i, 'verify')
            break
        if stored_length(r) == 0 and r.block:
            # what follows is not a record
            want_end = (i + 1, 'refused')
            break
        if stored_length(r) is not None and stored_length(r) > len(r.block):
            break
    try:
        try:
            for record in it:
                require(n < len(recs), 'a record too many')
                try:
                    judge(record, recs[n], opts, it, spans[n], mode)
                except Violation as v:
                    raise Violation('record %d (%s) with %s: %s' % (n, names[n], ', '.join(k for k in opts if opts[k]), v.msg))
                n += 1
                if n > 0 and stored_length(recs[n - 1]) == 0 and recs[n - 1].block:
                    # not framed: nothing is known of the rest
                    return Out(c)
            end = 'end'
        except StatusAndHeadersParserException:
            end = (n, 'verify')
        except ArchiveLoadFailed as e:
            end = (n, 'refused')
    finally:
        sys.stderr = err
    same(end, want_end, 'how reading ended')
    if end == 'end':
        same(n, len(recs), 'records')
        same(it.err_count, 0, 'err_count')
    return Out(c, transitions=n)


def judge(x, r, opts, it, span, mode):
    length = stored_length(r)
    http = None if opts['no_record_parse'] or length == 0 else http_of(r)
    conv = r.fmt == 'arc' and opts['arc2warc']
    if conv:
        same(sorted((a, b) for a, b in x.rec_headers.headers if a not in ('WARC-Record-ID', 'Content-Length')), sorted(c16.want_warc(r)), 'record headers')
        ctype = 'application/http;msgtype=response' if r.rec_type != 'arc_header' else r.get('content-type')
        same((x.format, x.rec_type), ('warc', 'warcinfo' if r.rec_type == 'arc_header' else r.rec_type), 'format and type')
    else:
        want = [(a, fixed(b) if a.lower() == 'warc-target-uri' else b.strip(' ')) for a, b in r.headers]
        if r.fmt == 'arc':
            want = r.headers
        same([tuple(h) for h in x.rec_headers.headers], want, 'record headers')
        ctype = r.get('content-type')
        same((x.format, x.rec_type), (r.fmt, r.rec_type), 'format and type')
    same(x.content_type, ctype, 'content type')
    same(x.length, length, 'length')
    block = r.block if length is None else r.block[:length]
    if length is None:
        # to the end of the file or member
        block += r.sep()
    if http is None:
        raw = content = block
    else:
        raw, content = block[len(r.httpblock):], r.content + (r.sep() if length is None else b'')
    if http is not None:
        require(x.http_headers is not None, 'no HTTP headers')
        h = x.http_headers
        same((h.protocol.upper(), h.statusline, [tuple(a) for a in h.headers]), (http[0].upper(), http[1], list(http[2])), 'HTTP headers')
    elif opts['ensure_http_headers']:
        require(x.http_headers is not None, 'no HTTP headers although asked for')
        gen = ([('Content-Type', ctype)] if ctype else []) + ([('Content-Length', str(length))] if length is not None else [])
        same((x.http_headers.protocol, x.http_headers.statusline, [tuple(a) for a in x.http_headers.headers]), ('HTTP/1.0', '200 OK', gen), 'HTTP headers made up')
    else:
        require(x.http_headers is None, 'HTTP headers %s', x.http_headers)
    if length is not None and length <= len(r.block):
        # whichever stream is read
        if (len(r.block) + sum(map(bool, opts.values()))) % 2 and r.http is http:
            same(x.content_stream().read(), content, 'content')
        else:
            same(x.raw_stream.read(), raw, 'raw content')
    else:
        same(x.raw_stream.read(), raw if length is None else raw + r.sep(), 'raw content')
    dc = x.digest_checker
    if not opts['check_digests']:
        same((dc.passed, list(dc.problems)), (None, []), 'digest verdict when not asked for')
    elif length is not None and length <= len(r.block):
        judged = r.get('WARC-Block-Digest') and r.rec_type != 'revisit'
        same((dc.passed, list(dc.problems)), (True if judged else None, []), 'digest verdict')
    if length is not None and length == len(r.block):
        same((it.get_record_offset(), it.get_record_length()), span, 'offset and length')
