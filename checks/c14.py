"""C14: every header value, name and status line up to a length over an alphabet of the
characters the encoder looks at, and every combination of a menu of them in one block."""
import io
import itertools
import re
from urllib.parse import unquote

from mc import ref
from mc.core import Out, require, same

ID = 'C14'
LEVEL = 'exploration'
RULE = 'all strings up to the length bound over the alphabet as value, name, status line and protocol; all blocks of up to 3 menu headers written as records; non-trivial: some text was not ASCII'
ASSUMPTIONS = ['Strings hold no line ends and no lone surrogates.',
               'Encoded text is recovered by unquoting the whole value, or each parameter in the form name*=UTF-8\'\'text; the quotes around parameters may go.']
ALPHA = 'a\xe9=";% '
MENU_V = ['plain', 'caf\xe9', 'a=b; c="\xe9\u4e2d"', '\xe9; x=y', 'attachment; filename="\u4e2d \U0001f600.txt"; a=1', 'a=b;c=d', '100% \xe9', '',
          '"\xe9"', "x='\xe9'; y", '\x80\x85\xa0\u2028', ' \xe9 ', 'a=\xe9=\xe9;=', '%E9 plain;%', 'text/html; charset=utf-8']
STATUS = ['200 OK', '200 Tr\xe8s bien', '\u4e2d', '200 100% \xe9', '', '/caf\xe9?q=\u4e2d HTTP/1.1', '404', '/a%20b?c=%E9 HTTP/1.1', '200 50%25 off']
NAMES = ['X-A', 'x-a', 'X-\xe9', '\u4e2d%', 'X%20%']


def BOUNDS(tier):
    return dict(alphabet=list(ALPHA), value_length=6 if tier == 'thorough' else 5, menu_values=len(MENU_V), block_headers=3)


def units(tier):
    n = 6 if tier == 'thorough' else 5
    out = [dict(t='values', pre=a + b, n=n) for a in ALPHA for b in ALPHA]
    out.append(dict(t='short'))
    for i in range(len(MENU_V)):
        for s in range(len(STATUS)):
            out.append(dict(t='blocks', v=i, s=s, full=tier == 'thorough'))
    return out


def explore(u, run):
    if u['t'] == 'values':
        for k in range(u['n'] - 1):
            for rest in itertools.product(ALPHA, repeat=k):
                run(('text', u['pre'] + ''.join(rest)))
    elif u['t'] == 'short':
        for a in [''] + list(ALPHA):
            run(('text', a))
        for c in list(range(128, 0x250)) + [0x4e2d, 0x2028, 0xffff, 0x1f600, 0x10ffff, 0xfeff]:
            for t in ('%s', 'a%s', 'x=%s;', '%s;', 'x="%s"; %s'):
                run(('text', t.replace('%s', chr(c))))
    else:
        for j in range(len(MENU_V)):
            for k in range(len(MENU_V)) if u['full'] else [(u['v'] + j) % len(MENU_V)]:
                for name in range(len(NAMES)):
                    for filt in (0, 1, 2):
                        run(('block', u['s'], (u['v'], j, k), name, filt))


def ascii_(s):
    return all(ord(c) < 128 for c in s)


EXT = re.compile(r"\*=UTF-8''")


def noq(s):
    return s.replace('"', '').replace("'", '')


def check_value(orig, new, what):
    if ascii_(orig):
        same(new, orig, what + ' (ASCII only)')
        return
    require(ascii_(new), '%s: %s is not ASCII', what, new)
    if unquote(new) == orig:
        return
    # parameters in extended form
    parts = re.split(r"\*=UTF-8''([A-Za-z0-9_.~/%-]*)", new)
    dec = ''
    for i, p in enumerate(parts):
        dec += p if i % 2 == 0 else '=' + unquote(p)
    require(len(parts) > 1 and noq(dec) == noq(orig), '%s: %s encoded as %s gives back %s', what, orig, new, dec)


def check_text(orig, new, what):
    if ascii_(orig):
        same(new, orig, what + ' (ASCII only)')
    else:
        require(ascii_(new), '%s: %s is not ASCII', what, new)
        same(unquote(new), orig, what + ' decoded')


def lines(block, n):
    text = block.decode('ascii')
    require(text.endswith('\r\n\r\n'), 'no blank line at the end of %s', text[-20:])
    out = text[:-4].split('\r\n')
    same(len(out), n, 'lines in the block %r' % text)
    return out


def run_case(case):
    from warcio.statusandheaders import StatusAndHeaders
    if case[0] == 'text':
        s = case[1]
        h = StatusAndHeaders('200 OK', [('A', 'x y'), ('V', s), ('a', 'z')], protocol='HTTP/1.1')
        b = h.to_ascii_bytes()
        ls = lines(b, 4)
        same([ls[0], ls[1], ls[3]], ['HTTP/1.1 200 OK', 'A: x y', 'a: z'], 'lines left alone')
        require(ls[2].startswith('V: '), 'header line %s', ls[2])
        check_value(s, ls[2][3:], 'value')
        same(h.to_ascii_bytes(), b, 'encoding again')
        h = StatusAndHeaders(s, [('A', 'x')], protocol='HTTP/1.1')
        b = h.to_ascii_bytes()
        ls = lines(b, 2)
        same(ls[1], 'A: x', 'header left alone')
        if s:
            require(ls[0].startswith('HTTP/1.1 '), 'status line %s', ls[0])
            check_text(s, ls[0][9:], 'status')
        same(h.to_ascii_bytes(), b, 'encoding again')
        # next to others which have to be encoded
        h = StatusAndHeaders(s, [('V', s), ('B', '\xe9%'), ('Last', 'plain %20')], protocol='HTTP/1.1')
        b = h.to_ascii_bytes()
        ls = lines(b, 4)
        check_text(s, ls[0][9:], 'status next to another text')
        require(ls[1].startswith('V: '), 'header line %s', ls[1])
        check_value(s, ls[1][3:], 'value next to another text')
        check_value('\xe9%', ls[2][3:], 'value next to another text')
        same(ls[3], 'Last: plain %20', 'last value')
        same(h.to_ascii_bytes(), b, 'encoding again')
        if ' ' not in s and s:
            h = StatusAndHeaders('x\xe9', [(s, '\xe9'), ('B', s)], protocol=s)
            ls = lines(h.to_ascii_bytes(), 3)
            check_text(s, ls[0].split(' ')[0], 'protocol next to another text')
            require(': ' in ls[1], 'header line %s', ls[1])
            check_text(s, ls[1][:ls[1].index(': ', 1)], 'name next to another text')
            check_value(s, ls[2][3:], 'last value')
            h = StatusAndHeaders('x', [(s, 'v1'), ('B', 'b'), (s, 'v2')], protocol=s)
            b = h.to_ascii_bytes()
            ls = lines(b, 4)
            check_text(s, ls[0].split(' ')[0], 'protocol')
            same(ls[2], 'B: b', 'header left alone')
            for ln, v in ((ls[1], ': v1'), (ls[3], ': v2')):
                require(ln.endswith(v), 'value lost in %s', ln)
                check_text(s, ln[:-len(v)], 'name')
            same(h.to_ascii_bytes(), b, 'encoding again')
        return Out(s, nontrivial=not ascii_(s), transitions=3)
    _, si, vi, name, filt = case
    return block(STATUS[si], [MENU_V[i] for i in vi], NAMES[name], filt)


def block(status, vals, name, filt):
    from warcio.archiveiterator import ArchiveIterator
    from warcio.statusandheaders import StatusAndHeaders
    from warcio.warcwriter import WARCWriter
    headers = [('First', vals[0]), (name, vals[1]), ('first', vals[2]), ('Last', 'ascii; x="y"')]
    ff = [None, lambda h: h if h[0] != 'first' else None, lambda h: (h[0], 'R') if h[0] == 'Last' else h][filt]
    want = [h for h in headers if not (filt == 1 and h[0] == 'first')]
    if filt == 2:
        want[-1] = ('Last', 'R')
    body = b'body\r\n'
    out = io.BytesIO()
    w = WARCWriter(out, gzip=False, header_filter=ff)
    rtype = 'request' if 'HTTP/' in status else 'response'
    rec = w.create_warc_record('http://example.com/\xe9', rtype, payload=io.BytesIO(body), length=len(body),
                               http_headers=StatusAndHeaders(status, list(headers), protocol='GET' if rtype == 'request' else 'HTTP/1.1'))
    w.write_record(rec)
    data = out.getvalue()
    p, = ref.parse_warc(data)
    head, rest = ref.split_http(p.block)
    same(rest, body, 'body')
    ls = lines(head, len(want) + 1)
    first = ls[0].split(' ', 1)
    same(first[0], 'GET' if rtype == 'request' else 'HTTP/1.1', 'protocol')
    check_text(status, first[1] if len(first) > 1 else '', 'status')
    for ln, (n, v) in zip(ls[1:], want):
        gn, sep, gv = ln.partition(': ')
        check_text(n, gn, 'name')
        check_value(v, gv, 'value of %s' % n)
    same(p.get('WARC-Block-Digest'), ref.sha1_32(p.block), 'block digest')
    same(p.get('WARC-Payload-Digest'), ref.sha1_32(body), 'payload digest')
    same(p.get('WARC-Target-URI'), 'http://example.com/\xe9', 'target URI')
    it = ArchiveIterator(io.BytesIO(data), check_digests=True)
    r, = [(x.http_headers, x.raw_stream.read(), x.digest_checker.passed) for x in it]
    same(r[1:], (body, True), 'body read and digests checked')
    # written again: nothing changes
    out2 = io.BytesIO()
    w2 = WARCWriter(out2, gzip=False)
    for x in ArchiveIterator(io.BytesIO(data)):
        w2.write_record(x)
    p2, = ref.parse_warc(out2.getvalue())
    h2, b2 = ref.split_http(p2.block)
    # blanks at the ends of values are not kept by parsing
    same([x.strip() for x in h2.split(b'\r\n')], [x.strip() for x in head.split(b'\r\n')], 'HTTP headers written again')
    return Out((status, tuple(vals), name, filt), nontrivial=True, transitions=2)
