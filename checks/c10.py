"""C10: every chunking of small bodies in every spelling, every cut of them, and every
short string over the chunk alphabet, against an independent chunk grammar."""
import functools
import io
import itertools
import re
import zlib

from mc import ref, streams
from mc.core import Out, Violation, require, same

ID = 'C10'
LEVEL = 'exploration'
RULE = ('every composition of the data into chunks x spelling x extensions x trailers x compression x read sequence, every cut position of each, '
        'and every string up to the length bound over the chunk alphabet; non-trivial: data was delivered or damage was met')
ASSUMPTIONS = ['A body whose size line is right but whose chunk terminator is wrong is neither valid, nor cut short, nor "not chunked at all" (its '
               'treatment, fixed by an existing test, is not judged).', 'zlib and brotli decode correctly.']
DATAS = [b'', b'a', b'ab\ncd\r\n', b'0\r\n\r\n5', b'hello\n world\n', b'\r\n\r\n', b'1\r\nx']
SPELL = ['lower', 'upper', 'zeros', 'spaced', 'manyzeros', 'manyspaces']
EXTS = [b'', b';a', b';name=val', b'; x="a;b"', b';' + b'e' * 80, b';q="' + b'f' * 500 + b'"']
TRAILERS = [b'', b'X-T: 1\r\n', b'X-T: 1\r\nDigest: abc==\r\n', b'E:\r\n', b'L: ' + b'l' * 100 + b'\r\n']
ENCS = ['', 'gzip', 'deflate', 'rawdeflate', 'br']
OPS = [('r', None), ('r', 1), ('r', 4), ('r', 0), ('l', None), ('l', 3), ('r', -1)]
SEQS = [[('r', None)], [('r', 1)], [('l', None)], [('r', 3), ('l', None)], [('l', 2), ('r', None)]]
STREAMS = ['bytesio', 'limit', 'buf3', 'limitbuf', 'short1', 'short2']
NEXT = b'NEXT RECORD\r\n0\r\n\r\n'
ALPHA = [b'0', b'1', b'a', b'g', b';', b'\r', b'\n', b' ']


def BOUNDS(tier):
    return dict(datas=len(DATAS), composition='all chunkings of up to 8 bytes', op_depth=4 if tier == 'thorough' else 3,
                string_length=6 if tier == 'thorough' else 5, cuts='every byte', encodings=ENCS)


def comps(n, cap):
    """all compositions of n (cap on the number returned for long n: only those with parts in a set)"""
    if n == 0:
        return [[]]
    out = []
    for mask in range(1 << (n - 1)):
        parts = []
        last = 0
        for i in range(n - 1):
            if mask >> i & 1:
                parts.append(i + 1 - last)
                last = i + 1
        parts.append(n - last)
        out.append(parts)
    return out


LONGC = [[1] * 200, [10], [7, 1], [2, 3, 5], [30, 1, 1], [1, 300], [16]]


def compositions(n):
    if n <= 8:
        return comps(n, None)
    return LONGC


@functools.lru_cache(100000)
def build(di, enc, comp, spell, ext, trailer, zero):
    body = ref.compress(enc, DATAS[di]) if isinstance(di, int) else big(di, enc)
    out = b''
    pos = 0
    marks = []
    i = 0
    while pos < len(body):
        n = comp[i % len(comp)]
        i += 1
        part = body[pos:pos + n]
        h = {'lower': b'%x', 'upper': b'%X', 'zeros': b'000%x', 'spaced': b'%x ', 'manyzeros': b'0' * 53 + b'%x', 'manyspaces': b'%x' + b' ' * 50}[spell] % len(part)
        out += h + EXTS[ext] + b'\r\n'
        marks.append((len(out), pos, len(part)))
        out += part + b'\r\n'
        pos += len(part)
    end_of_chunks = len(out)
    out += b'0' * zero + EXTS[ext] + b'\r\n' + TRAILERS[trailer] + b'\r\n'
    return body, out, marks, end_of_chunks


@functools.lru_cache(None)
def bigs():
    return {'b1': ref.text(50000, 1), 'b2': ref.pat(33000, 2), 'huge': ref.pat(2500000, 3)}


def big(name, enc):
    return ref.compress(enc, bigs()[name])


def content(di, enc):
    if isinstance(di, int):
        return DATAS[di]
    return bigs()[di]


def units(tier):
    out = []
    T = tier == 'thorough'
    for di in range(len(DATAS)):
        for enc in ENCS:
            n = len(ref.compress(enc, DATAS[di]))
            out.append(dict(t='valid', d=di, enc=enc))
            for st in STREAMS:
                out.append(dict(t='ops', d=di, enc=enc, stream=st, depth=4 if T else 3))
            out.append(dict(t='cut', d=di, enc=enc, full=T))
    for a in ALPHA:
        for b in ALPHA:
            out.append(dict(t='strings', pre=a + b, n=6 if T else 5))
    out.append(dict(t='notchunked'))
    for d in ('b1', 'b2'):
        for enc in ENCS:
            out.append(dict(t='big', d=d, enc=enc))
    for enc in ENCS:
        for comp in ([3000000], [1 << 20], [70000, 1], [1500]):
            out.append(dict(t='huge', enc=enc, comp=comp))
        out.append(dict(t='huge', enc=enc, comp=[1], d='b2'))
    return out


def explore(u, run):
    t = u['t']
    if t == 'valid':
        n = len(ref.compress(u['enc'], DATAS[u['d']]))
        cs = compositions(n)
        for comp in cs:
            for spell in SPELL:
                for seq in SEQS:
                    run(('valid', u['d'], u['enc'], comp, spell, 0, 0, 1, seq, 'limitbuf', False))
            for ext in range(len(EXTS)):
                for tr in range(len(TRAILERS)):
                    if len(cs) <= 64 or (ext + tr + len(comp)) % 3 == 0:
                        for zero in (1, 3):
                            run(('valid', u['d'], u['enc'], comp, 'lower', ext, tr, zero, [('r', None)], 'bytesio', False))
                            run(('valid', u['d'], u['enc'], comp, 'upper', ext, tr, zero, [('l', None)], 'limitbuf', True))
    elif t == 'ops':
        n = len(ref.compress(u['enc'], DATAS[u['d']]))
        cs = [[1], [3, 1], [max(1, n)]] if n else [[1]]
        for d in range(1, u['depth'] + 1):
            for seq in itertools.product(OPS, repeat=d):
                for comp in cs:
                    run(('valid', u['d'], u['enc'], comp, 'lower', 0, 0, 1, list(seq), u['stream'], False))
                run(('valid', u['d'], u['enc'], cs[-1], 'zeros', 2, 1, 1, list(seq), u['stream'], True))
    elif t == 'cut':
        n = len(ref.compress(u['enc'], DATAS[u['d']]))
        cs = [c for i, c in enumerate(compositions(n)) if u['full'] or n > 8 or i % 5 == 0 or len(c) <= 2]
        for comp in cs:
            for ext, tr in ((0, 0), (2, 2)):
                if (ext or tr) and len(comp) > 3:
                    continue
                total = len(build(u['d'], u['enc'], tuple(comp), 'lower', ext, tr, 1)[1])
                for cut in range(total):
                    for seq in SEQS[:3]:
                        run(('cut', u['d'], u['enc'], comp, 'lower', ext, tr, 1, seq, 'limit', cut))
    elif t == 'strings':
        for k in range(0, u['n'] - 1):
            for rest in itertools.product(ALPHA, repeat=k):
                s = u['pre'] + b''.join(rest)
                run(('string', s, [('r', None)]))
                if k <= u['n'] - 3:
                    run(('string', s, [('l', None), ('r', 2)]))
        run(('string', u['pre'][:1], [('r', None)]))
        run(('string', b'', [('r', None)]))
    elif t == 'notchunked':
        for base in (b'', b'plain text\r\nwith lines\r\n', b'<html>\n', b'x' * 63 + b'\r\n' + b'y' * 100, b'x' * 200, b'abcdef' * 20, b'ABCDEF\n0\r\n\r\n',
                     b'-5\r\nabcdefgh', b'-0x1\r\nabc', b'80000001\r\nabcdefgh', b'fffffffffffffffff\r\nabc', b'5\nhello\n0\n\n', b'\r\n5\r\nhello\r\n0\r\n\r\n',
                     b'g\r\nabc', b';a\r\nabc', b'1 2\r\nab', b'5\r', b'ABC', b'\r\n', b'\n', b'z5\r\nhello\r\n', ref.pat(3000, 1), ref.text(40000),
                     b'\x00\r\n\r\n', b'1' * 70 + b'\r\nabc', b'"5"\r\nhello', b'1,\r\nx', b'deadbeefs\r\nabc', b'zz;\r\n5\r\nhello\r\n0\r\n\r\n',
                     b'not-hex' + b';x' * 40 + b'\r\nhello'):
            for enc in ENCS:
                for st in STREAMS:
                    for seq in SEQS:
                        run(('plain', base, enc, st, seq))
    elif t == 'huge':
        for st in STREAMS[:4]:
            for seq in ([('r', None)], [('r', 16384), ('r', 1 << 20)], [('l', None), ('r', 3)]):
                run(('valid', u.get('d', 'huge'), u['enc'], u['comp'], 'lower', 0, 0, 1, seq, st, False))
    elif t == 'big':
        for comp in ([16384], [16383, 1], [16385], [1, 40000], [4096], [100000], [50, 16384, 7]):
            for st in STREAMS:
                for seq in ([('r', None)], [('r', 16384), ('r', 20000)], [('l', None), ('r', 1), ('r', 40000)], [('r', 5)]):
                    run(('valid', u['d'], u['enc'], comp, 'lower', 0, 0, 1, seq, st, False))
                    run(('valid', u['d'], u['enc'], comp, 'upper', 1, 1, 1, seq, st, True))


def make(data, enc, stream, strict):
    """(chunked reader, function giving the bytes left under it)"""
    from warcio.bufferedreaders import BufferedReader, ChunkedDataReader
    from warcio.limitreader import LimitReader
    full = data + NEXT
    base = io.BytesIO(full)
    if stream == 'bytesio':
        s = base
        left = base.read
    elif stream.startswith('short'):
        s = streams.ShortLines(base, int(stream[5:]))
        left = base.read
    elif stream == 'limit':
        # nothing after the limit may be touched
        s = LimitReader(base, len(data))
        left = base.read
    elif stream == 'buf3':
        b = BufferedReader(base, block_size=3)
        s = b
        left = b.read
    else:
        b = BufferedReader(base, block_size=5)
        s = LimitReader(b, len(data))
        left = b.read
    dt = {'': None, 'rawdeflate': 'deflate'}.get(enc, enc)
    return ChunkedDataReader(s, raise_exceptions=strict, decomp_type=dt), left


def play(r, seq, want, exact=True):
    f = io.BytesIO(want)
    got = b''
    for op, n in seq:
        w = f.read(n) if op == 'r' else f.readline(n)
        if op == 'r':
            g = r.read() if n is None else r.read(n)
        else:
            g = r.readline() if n is None else r.readline(n)
        if exact:
            same(g, w, '%s(%s)' % ('read' if op == 'r' else 'readline', n))
        got += g
    while True:
        g = r.read(6 if len(want) < 100000 else 5000)
        if not g:
            break
        got += g
    if exact:
        same(got, want, 'all data')
    for g in (r.read(), r.readline(), r.read(1)):
        same(g, b'', 'data after the end')
    return got


def prefix_content(enc, body):
    """what a decompressor gives for a prefix of the compressed data"""
    if not enc:
        return body
    if enc == 'br':
        import brotli
        d = brotli.Decompressor()
        return d.decompress(body) if body else b''
    d = zlib.decompressobj({'gzip': 31, 'deflate': 15, 'rawdeflate': -15}[enc])
    return d.decompress(body)


SIZE = re.compile(rb'[0-9a-fA-F]+[ \t]*(;[^\n]*)?\r\n\Z')


def classify(data):
    """('valid', content, rest) | ('cut', content) | ('plain',) | ('first',) | ('corrupt',)"""
    pos = 0
    out = b''
    first = True
    while True:
        i = data.find(b'\n', pos)
        line = data[pos:] if i < 0 else data[pos:i + 1]
        if not SIZE.match(line):
            if first:
                if i < 0 and re.match(rb'[0-9a-fA-F]*[ \t]*(;[^\n]*)?\r?\Z', line):
                    return ('first',)          # ended within the first size line
                if re.match(rb'\s*[0-9a-fA-F]+\s*(;.*)?\r\n\Z', line, re.S):
                    return ('corrupt',)        # odd blanks: lenient, not judged
                return ('plain',)
            if i < 0 and re.match(rb'([0-9a-fA-F]+[ \t]*(;[^\n]*)?\r?)?\Z', line):
                return ('cut', out)
            return ('corrupt',)
        n = int(line.split(b';')[0].strip(), 16)
        pos = i + 1
        first = False
        if n == 0:
            while True:
                i = data.find(b'\n', pos)
                if i < 0:
                    rest = data[pos:]
                    if rest in (b'', b'\r') or b':' in rest:
                        return ('cut', out)
                    return ('corrupt',)
                line = data[pos:i + 1]
                pos = i + 1
                if line == b'\r\n':
                    return ('valid', out, data[pos:])
                if b':' not in line or not line.endswith(b'\r\n'):
                    return ('corrupt',)
        part = data[pos:pos + n]
        out += part
        pos += n
        if len(part) < n or data[pos:pos + 2] in (b'', b'\r'):
            return ('cut', out)
        if data[pos:pos + 2] != b'\r\n':
            return ('corrupt',)
        pos += 2


def run_case(case):
    from warcio.bufferedreaders import ChunkedDataException, ChunkedDataReader
    kind = case[0]
    if kind == 'valid':
        _, di, enc, comp, spell, ext, tr, zero, seq, stream, strict = case
        body, data, marks, eoc = build(di, enc, tuple(comp), spell, ext, tr, zero)
        want = content(di, enc)
        r, left = make(data, enc, stream, strict)
        play(r, seq, want)
        same(left(), NEXT, 'bytes left after the chunked body')
        return Out((di, enc, len(comp)), nontrivial=True)
    if kind == 'cut':
        _, di, enc, comp, spell, ext, tr, zero, seq, stream, cut = case
        body, data, marks, eoc = build(di, enc, tuple(comp), spell, ext, tr, zero)
        first_line = data.index(b'\n') + 1
        avail = b''
        for start, pos, n in marks:
            if cut > start:
                avail += body[pos:pos + min(n, cut - start)]
        r, left = make(data[:cut], enc, stream, False)
        if cut < first_line:
            got = play(r, seq, b'', exact=False)
            require(enc or got in (b'', data[:cut]), 'cut within the first size line: %s', got)
        elif enc == 'rawdeflate' and len(avail) < 3:
            play(r, seq, b'', exact=False)
        elif enc == 'br':
            # how much the brotli decoder gives for cut data depends on how it is fed
            got = play(r, seq, b'', exact=False)
            require(content(di, enc).startswith(got), 'cut brotli data: %s', got)
        else:
            play(r, seq, prefix_content(enc, avail))
        same(left(), NEXT, 'bytes left after the cut body')
        # strict: must raise
        r, left = make(data[:cut], enc, stream, True)
        try:
            got = b''
            while True:
                g = r.read(5)
                if not g:
                    break
                got += g
            raise Violation('a chunked body cut at %d of %d raised no error in strict mode, gave %r' % (cut, len(data), got[:100]))
        except ChunkedDataException:
            pass
        return Out((di, enc, cut), nontrivial=True)
    if kind == 'string':
        _, s, seq = case
        c = classify(s)
        r = ChunkedDataReader(io.BytesIO(s))
        if c[0] == 'plain':
            play(r, seq, s)
        elif c[0] in ('valid', 'cut'):
            play(r, seq, c[1])
        elif c[0] == 'first':
            got = play(r, seq, s, exact=False)
            require(got in (b'', s), 'ended within the first size line: %s', got)
        else:
            play(r, seq, s, exact=False)
        strict = ChunkedDataReader(io.BytesIO(s), raise_exceptions=True)
        try:
            got = strict.read()
            require(c[0] in ('valid', 'corrupt'), 'strict mode raised nothing for %s data', c[0])
            if c[0] == 'valid':
                same(got, c[1], 'strict read')
        except ChunkedDataException:
            require(c[0] != 'valid', 'strict mode raised for a valid body')
        return Out((c[0], s), nontrivial=c[0] != 'first')
    _, base, enc, stream, seq = case
    data = ref.compress(enc, base)
    if not enc and (SIZE.match(data[:data.find(b'\n') + 1]) and classify(data)[0] != 'plain' and not data.startswith((b'800', b'fff', b'111'))):
        return Out(None, nontrivial=False)
    r, left = make(data, enc, 'limitbuf' if stream in ('buf3', 'limitbuf') else 'limit', False)
    if not enc and classify(data)[0] == 'first':
        got = play(r, seq, base, exact=False)
        require(got in (b'', base), 'unchunked data: %s', got)
    else:
        play(r, seq, base)
    same(left(), NEXT, 'bytes left after the data')
    return Out((base[:20], enc))
