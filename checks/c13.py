"""C13: every header block of a bounded grammar (status line x up to 3..4 lines of
every form x line endings x stream kind), parsed, serialised and parsed again."""
import io
import itertools

from mc.core import Out, require, same

ID = 'C13'
LEVEL = 'exploration'
RULE = ('every block: status line form x sequence of header-line forms x line ending x stream kind x verification; the expected parse is built '
        'along with the bytes; non-trivial: the block holds at least one header')
ASSUMPTIONS = ['Lines of white space only, and a continuation line with nothing to continue, are not part of the grammar.',
               'A value that is valid UTF-8 is UTF-8; otherwise it is Latin-1.',
               'The white space around values and status is space and tab; a continuation is joined as it stands.']

# (first line bytes, statuslist, protocol, statusline)
STATUS = [
    (b'HTTP/1.1 200 OK', 'resp', 'HTTP/1.1', '200 OK'),
    (b'HTTP/1.0 404 Not Found At All', 'resp', 'HTTP/1.0', '404 Not Found At All'),
    (b'HTTP/1.1 204', 'resp', 'HTTP/1.1', '204'),
    (b'HTTP/1.1', 'resp', 'HTTP/1.1', ''),
    (b'HTTP/1.0 200 Tr\xc3\xa8s bien', 'resp', 'HTTP/1.0', '200 Tr\xe8s bien'),
    (b'HTTP/1.0 200 Tr\xe8s', 'resp', 'HTTP/1.0', '200 Tr\xe8s'),
    (b'HTTP/1.0 200 a: b', 'resp', 'HTTP/1.0', '200 a: b'),
    (b'GET / HTTP/1.1', 'req', 'GET', '/ HTTP/1.1'),
    (b'POST /a%20b?c:d HTTP/1.0', 'req', 'POST', '/a%20b?c:d HTTP/1.0'),
    (b'WARC/1.0', 'warc', 'WARC/1.0', ''),
    (b'WARC/1.1', 'warc', 'WARC/1.1', ''),
]
LISTS = {'resp': ['HTTP/1.0', 'HTTP/1.1'], 'req': ['GET', 'HEAD', 'POST'], 'warc': ['WARC/1.1', 'WARC/1.0', 'WARC/0.17', 'WARC/0.18']}

# (raw lines without endings, header or None)
LINES = [
    ([b'A: b'], ('A', 'b')),
    ([b'A:b'], ('A', 'b')),
    ([b'A : b'], ('A', 'b')),
    ([b'A\t:\tb'], ('A', 'b')),
    ([b'a:  two words  '], ('a', 'two words')),
    ([b'X-Empty:'], ('X-Empty', '')),
    ([b'X-Empty: '], ('X-Empty', '')),
    ([b'X-Colon: http://a:80/?q=1:2'], ('X-Colon', 'http://a:80/?q=1:2')),
    ([b'X-U: caf\xc3\xa9 \xe4\xb8\xad'], ('X-U', 'caf\xe9 \u4e2d')),
    ([b'X-L: caf\xe9 \xfc'], ('X-L', 'caf\xe9 \xfc')),
    ([b'X-Sp: end\xc2\xa0'], ('X-Sp', 'end\xa0')),
    ([b'X-Wide: \xe3\x80\x80w\xe3\x80\x80'], ('X-Wide', '\u3000w\u3000')),
    ([b'X-C: one', b' two'], ('X-C', 'one two')),
    ([b'X-C: one', b'\ttwo', b'  three: 3'], ('X-C', 'one\ttwo  three: 3')),
    ([b'X-F:', b' folded'], ('X-F', 'folded')),
    ([b'X-F2: ', b'\t folded'], ('X-F2', 'folded')),
    ([b'no header here'], None),
    ([b'no header', b' continued: x'], None),
    ([b'HTTP/1.1 200 OK'], None),
    ([b'X_y.z!#: v;q="a, b"; c=\'d\''], ('X_y.z!#', 'v;q="a, b"; c=\'d\'')),
    ([b'A: other'], ('A', 'other')),
    ([b'X-Cr: a\rb'], ('X-Cr', 'a\rb')),
    ([b'X-Nel: e\x85'], ('X-Nel', 'e\x85')),
    ([b'X-Us: u\x1f'], ('X-Us', 'u\x1f')),
    ([b'N\xc3\xa9: v'], ('N\xe9', 'v')),
    ([b'WARC/1.0: x'], ('WARC/1.0', 'x')),
]
EOLS = ['crlf', 'lf', 'mixed']
STREAMS = ['bytesio', 'limit', 'buf1', 'buf3', 'iobuf']
BODY = b'\r\nBODY: x\r\n\r\nmore'

# every line of these, up to a length
TOKENS = [b'a', b':', b' ', b'\t', b'\xc3\xa9', b';="']
STATUS_TOKENS = [b'2', b'00', b' ', b'\t', b':', b'\xc3\xa9']


def BOUNDS(tier):
    return dict(status_forms=len(STATUS), line_forms=len(LINES), lines=4 if tier == 'thorough' else 3, line_tokens=7 if tier == 'thorough' else 6,
                status_tokens=6 if tier == 'thorough' else 5, endings=EOLS, streams=STREAMS)


def units(tier):
    out = [dict(t='short', s=s) for s in range(len(STATUS))]
    out += [dict(t='three', a=a) for a in range(len(LINES))]
    if tier == 'thorough':
        out += [dict(t='four', a=a, b=b) for a in range(len(LINES)) for b in range(len(LINES))]
    out.append(dict(t='long'))
    out.append(dict(t='held'))
    out += [dict(t='line', a=a, b=b, n=BOUNDS(tier)['line_tokens']) for a in range(len(TOKENS)) for b in range(len(TOKENS))]
    out += [dict(t='status', a=a, n=BOUNDS(tier)['status_tokens']) for a in range(len(STATUS_TOKENS))]
    return out


def explore(u, run):
    n = range(len(LINES))
    if u['t'] == 'short':
        for k in range(3):
            for ls in itertools.product(n, repeat=k):
                for eol in EOLS:
                    for st in STREAMS:
                        for ver in (True, False):
                            run((u['s'], list(ls), eol, st, ver))
    elif u['t'] == 'three':
        for b in n:
            for c in n:
                for i, eol in enumerate(EOLS):
                    run((0, [u['a'], b, c], eol, 'bytesio', True))
                run((7, [u['a'], b, c], 'mixed', 'buf1', False))
                run((9, [u['a'], b, c], 'crlf', 'limit', True))
    elif u['t'] == 'four':
        for c in n:
            for d in n:
                for eol in EOLS:
                    run((0, [u['a'], u['b'], c, d], eol, 'bytesio', True))
                run((8, [u['a'], u['b'], c, d], 'mixed', 'buf3', True))
    elif u['t'] == 'line':
        for k in range(u['n'] - 1):
            for rest in itertools.product(range(len(TOKENS)), repeat=k):
                t = [u['a'], u['b']] + list(rest)
                if known_line(b''.join(TOKENS[i] for i in t)):
                    run(('line', t))
    elif u['t'] == 'status':
        for k in range(u['n']):
            for rest in itertools.product(range(len(STATUS_TOKENS)), repeat=k):
                run(('status', [u['a']] + list(rest)))
    elif u['t'] == 'long':
        for size in list(range(16330, 16400)) + [40000, 100000]:
            for st in STREAMS:
                run(('long', size, st))
    else:
        vals = ['', 'v', 'a: b', 'x;y="z"', '\xe9', '\u4e2d\u6587', 'tab\there', "q'uote", 'a  b']
        names = ['A', 'x-y', 'A', '\xdc']
        for k in range(4):
            for hs in itertools.product(itertools.product(names[:3], vals), repeat=k) if k < 3 else [
                    tuple((names[i % 4], vals[(i + j) % len(vals)]) for i in range(5)) for j in range(9)]:
                for proto, sl in (('HTTP/1.1', '200 OK'), ('GET', '/x HTTP/1.1'), ('WARC/1.0', ''), ('HTTP/1.0', '204')):
                    run(('held', proto, sl, list(hs)))


def known_line(line):
    # what the property says nothing about: blank lines, and names that are empty or hold white space or quotes
    if not line.strip():
        return False
    name, colon, value = line.partition(b':')
    name = name.rstrip(b' \t')
    return not colon or line[:1] in b' \t' or (name and not any(c in name for c in b' \t"'))


def stream_of(kind, data):
    from warcio.bufferedreaders import BufferedReader
    from warcio.limitreader import LimitReader
    if kind == 'bytesio':
        return io.BytesIO(data)
    if kind == 'limit':
        return LimitReader(io.BytesIO(data), len(data))
    if kind == 'buf1':
        return BufferedReader(io.BytesIO(data), block_size=1)
    if kind == 'buf3':
        return BufferedReader(io.BytesIO(data), block_size=3)
    return io.BufferedReader(io.BytesIO(data), 5)


def decide(raw, kind, lst, verify, proto, sl, headers):
    from warcio.statusandheaders import StatusAndHeadersParser, StatusAndHeaders
    s = stream_of(kind, raw + BODY)
    p = StatusAndHeadersParser(LISTS[lst], verify=verify)
    h = p.parse(s)
    same(h.protocol, proto, 'protocol')
    same(h.statusline, sl, 'status')
    same([tuple(x) for x in h.headers], headers, 'headers')
    rest = b''
    while True:
        b = s.read(100)
        if not b:
            break
        rest += b
    same(rest, BODY, 'what the stream holds after the block')
    # serialise and parse again
    out = h.to_bytes()
    first = ' '.join(x for x in (proto, sl) if x)
    want = ''.join('%s\r\n' % x for x in [first] + ['%s: %s' % x for x in headers]) + '\r\n'
    same(out, want.encode('utf-8'), 'serialised block')
    same(h.to_str(), want[:-2], 'to_str()')
    same(str(h), want[:-2], 'str()')
    s2 = io.BytesIO(out + BODY)
    h2 = p.parse(s2)
    require(h2 == h and not (h2 != h), 'parsing the serialised block gives another object: %s / %s', h2, h)
    same([tuple(x) for x in h2.headers], headers, 'headers after serialising and parsing')
    same(s2.read(), BODY, 'stream after parsing the serialised block')
    # the first line read beforehand
    s3 = io.BytesIO(raw + BODY)
    line = s3.readline()
    h3 = p.parse(s3, line)
    require(h3 == h, 'giving the first line separately changes the result')
    same(s3.read(), BODY, 'stream after parsing with the first line given')
    return h


def run_case(case):
    from warcio.statusandheaders import StatusAndHeaders
    if case[0] == 'long':
        _, size, st = case
        raw = b'HTTP/1.1 200 OK\r\nX-Long: ' + b'a' * size + b'\r\nX-Next: 1\r\n\r\n'
        decide(raw, st, 'resp', True, 'HTTP/1.1', '200 OK', [('X-Long', 'a' * size), ('X-Next', '1')])
        return Out(size)
    if case[0] == 'line':
        line = b''.join(TOKENS[i] for i in case[1])
        eol = [b'\r\n', b'\n'][len(line) % 2]
        raw = b'HTTP/1.1 200 OK\r\nX: 1\r\n' + line + eol + b'Z:9\r\n\r\n'
        text = line.decode('utf-8')
        headers = [('X', '1')]
        if text[0] in ' \t':
            headers = [('X', '1' + text.rstrip(' \t'))]
        elif ':' in text:
            name, _, value = text.partition(':')
            headers.append((name.rstrip(' \t'), value.strip(' \t')))
        decide(raw, 'bytesio', 'resp', True, 'HTTP/1.1', '200 OK', headers + [('Z', '9')])
        return Out(case, nontrivial=len(headers) > 1)
    if case[0] == 'status':
        status = b''.join(STATUS_TOKENS[i] for i in case[1])
        want = status.decode('utf-8').strip(' \t')
        for ver in (True, False):
            for proto in ('HTTP/1.1', 'HTTP/1.0'):
                decide(proto.encode() + b' ' + status + b'\r\nA: b\r\n\r\n', 'bytesio', 'resp', ver, proto, want, [('A', 'b')])
        return Out(case)
    if case[0] == 'held':
        _, proto, sl, hs = case
        hs = [tuple(x) for x in hs]
        h = StatusAndHeaders(sl, list(hs), protocol=proto)
        lst = {'HTTP': 'resp', 'GET': 'req', 'WARC': 'warc'}[proto.split('/')[0]]
        h2 = decide(h.to_bytes(), 'bytesio', lst, True, proto, sl, hs)
        require(h2 == h, 'parsing the serialised object gives another object')
        return Out(case, nontrivial=bool(hs))
    si, ls, eol, st, ver = case
    line, lst, proto, sl = STATUS[si]
    raw = []
    headers = []
    k = 0
    for ln in [[line]] + [LINES[i][0] for i in ls] + [[b'']]:
        for x in ln:
            raw.append(x + (b'\r\n' if eol == 'crlf' or (eol == 'mixed' and k % 2) else b'\n'))
            k += 1
    for i in ls:
        if LINES[i][1]:
            headers.append(LINES[i][1])
    decide(b''.join(raw), st, lst, ver, proto, sl, headers)
    return Out((si, headers), nontrivial=bool(headers))
