"""C11: every combination of transfer coding, content coding, header spelling, payload,
chunking and read sequence, in every surrounding, against the payload that was encoded."""
import functools
import io
import itertools

from mc import menu, ref
from mc.core import Out, Violation, require, same

ID = 'C11'
LEVEL = 'exploration'
RULE = ('record kind x transfer coding (spelling) x content coding (spelling) x payload x chunking x read sequence x archive format x surrounding records; '
        'non-trivial: payload bytes were delivered')
ASSUMPTIONS = ['Compressed and chunked bodies are complete (damage: C10, C24).',
               'Transfer-Encoding lists of several codings are not judged.',
               'zlib and brotli decode correctly.']
PAYLOADS = ['empty', 'one', 'text', 'bin', 'lines', 'gzish', 'chunkish', 'warcish', 'k16383', 'k16384', 'k16385', 'zeros', 't50000']
TES = ['', 'chunked', 'Chunked', 'CHUNKED', 'identity']
CES = ['', 'gzip', 'GZIP', 'GZip', 'deflate', 'Deflate', 'raw:deflate', 'raw:DEFLATE', 'br', 'BR', 'identity', 'x-unknown', 'gzip, br', 'plain:gzip', 'plain:GZIP', 'plain:deflate', 'plain:br', 'empty:gzip', 'empty:br', 'value:']
NAMES = [('Transfer-Encoding', 'Content-Encoding'), ('transfer-encoding', 'content-encoding'), ('TRANSFER-ENCODING', 'CONTENT-ENCODING'), ('tRANSFER-eNCODING', 'Content-encoding')]
KINDS = ['response', 'request', 'revisit', 'arc', 'arc2warc']
CHUNKS = [None, [1], [7, 20], [3], [16384], [10000, 1, 6384]]
FORMS = [dict(), dict(upper=True), dict(ext=b';a=b'), dict(zero=b'000'), dict(trailers=b'X-T: 1\r\n'), dict(ext=b' ; q="x;y"', upper=True)]
SEQS = [[('r', None)], [('r', 1)], [('r', 7)], [('r', 16384)], [('r', 100000)], [('l', None)], [('l', 5)], [('r', 3), ('l', None)], [('l', None), ('r', 0), ('r', None)], [('r', -1)]]


def BOUNDS(tier):
    return dict(payloads=len(PAYLOADS), transfer=TES, content=CES, names=len(NAMES), kinds=KINDS, chunkings=len(CHUNKS), forms=len(FORMS), sequences=len(SEQS),
                op_depth=4 if tier == 'thorough' else 3)


@functools.lru_cache(None)
def payload(p):
    return {'empty': b'', 'one': b'x', 'text': ref.text(90, 2), 'bin': ref.pat(300, 3), 'lines': b'\n\r\n\n' * 5, 'gzish': b'\x1f\x8b' + b'not gzip' * 4,
            'chunkish': b'5\r\nhello\r\n0\r\n\r\n', 'warcish': ref.warcish(150), 'k16383': ref.pat(16383, 5), 'k16384': ref.pat(16384, 6),
            'k16385': ref.pat(16385, 7), 'zeros': b'\0' * 100000, 't50000': ref.text(50000, 1)}[p]


@functools.lru_cache(None)
def mislabelled(ce, p):
    """True if no decoder of this coding takes any of the payload for data"""
    import brotli
    import zlib
    if p == 'empty':
        return True
    for new in {'br': [brotli.Decompressor], 'deflate': [zlib.decompressobj, lambda: zlib.decompressobj(-15)]}[ce]:
        d = new()
        try:
            for i in range(len(payload(p))):
                if d.decompress(payload(p)[i:i + 1]):
                    return False
            return False
        except (zlib.error, brotli.error):
            pass
    return True


SMALL = ['empty', 'one', 'text', 'lines', 'chunkish', 'gzish', 'warcish', 'bin']


def units(tier):
    T = tier == 'thorough'
    out = []
    for te in TES:
        for ce in CES:
            out.append(dict(t='combo', te=te, ce=ce, full=T))
    for te in ('', 'chunked'):
        for ce in ('', 'gzip', 'raw:deflate', 'deflate', 'br', 'plain:gzip', 'plain:deflate', 'plain:br'):
            for p in SMALL:
                if ce in ('plain:deflate', 'plain:br') and not mislabelled(ce[6:], p):
                    continue
                out.append(dict(t='ops', te=te, ce=ce, p=p, depth=4 if T else 3))
    for p in PAYLOADS:
        out.append(dict(t='chunk', p=p, full=T))
    return out


OPS = [('r', 1), ('r', 4), ('r', None), ('l', None), ('l', 3), ('r', 0)]


def explore(u, run):
    if u['t'] == 'combo':
        for kind in KINDS:
            for p in PAYLOADS:
                if u['ce'] in ('plain:deflate', 'plain:br') and not mislabelled(u['ce'][6:], p):
                    continue
                for ni in range(len(NAMES)) if u['full'] or p in ('text', 'one') else (0, 1):
                    for mode in ('plain', 'gz'):
                        for si in range(len(SEQS)) if u['full'] else (0, 2, 5, 7):
                            run((kind, u['te'], u['ce'], ni, p, 2 if len(payload(p)) < 1000 else 5, 0, SEQS[si], mode))
    elif u['t'] == 'ops':
        for d in range(u['depth'] + 1):
            for seq in itertools.product(OPS, repeat=d):
                run(('response', u['te'], u['ce'], 0, u['p'], 2, 0, list(seq) + ['end'], 'plain'))
    else:
        for te in ('chunked', 'Chunked'):
            for ce in ('', 'gzip', 'raw:deflate', 'deflate', 'br'):
                for ci in range(len(CHUNKS)):
                    if CHUNKS[ci] == [1] and len(payload(u['p'])) > 1000 and not u['full']:
                        continue
                    for fi in range(len(FORMS)):
                        for si in range(len(SEQS)):
                            if SEQS[si][0][1] == 1 and len(payload(u['p'])) > (20000 if u['full'] else 1000):
                                continue
                            if not u['full'] and len(payload(u['p'])) > 1000 and fi > 1 and si % 3:
                                continue
                            run(('response', te, ce, 0, u['p'], ci, fi, SEQS[si], 'gz' if si % 2 else 'plain'))


@functools.lru_cache(3000)
def record(kind, te, ce, ni, p, ci, fi):
    data = payload(p)
    how, _, label = ce.rpartition(':')
    body = data
    want = data
    low = label.lower()
    if how == 'empty':
        data = want = body = b''
    elif how == 'value':
        label = ''
    elif how == '' and low in ('gzip', 'deflate', 'br'):
        body = ref.compress(low, data)
    elif how == 'raw':
        body = ref.rawdeflate(data)
    hs = [('Host', 'example.com')]
    if te == 'identity':
        hs.append((NAMES[ni][0], te))
    elif te:
        body = ref.chunked(body, CHUNKS[ci], **FORMS[fi])
        hs.append((NAMES[ni][0], te))
    if label or how == 'value':
        hs.append((NAMES[ni][1], label))
    hs.append(('X-Last', 'z'))
    if kind == 'response':
        r = ref.w_response(body, headers=hs, content=want)
    elif kind == 'revisit':
        r = ref.w_response(body, headers=hs, content=want, rtype='revisit')
    elif kind == 'request':
        r = ref.w_request(body, method='POST', headers=hs)
        r.content = want
    else:
        r = ref.arc_response(body, headers=hs, content=want)
    if not label and te in ('', 'identity'):
        r.content = body
    return r


@functools.lru_cache(None)
def neighbours():
    m = dict(menu.warc_menu())
    m.update(menu.arc_menu())
    return m


def line_end(data, p, n):
    i = data.find(b'\n', p)
    e = len(data) if i < 0 else i + 1
    return e if n is None or n < 0 else min(e, p + n)


def consume(stream, data, seq):
    pos = 0
    end = seq and seq[-1] == 'end'
    ops = seq[:-1] if end else seq
    k = 0
    while True:
        if k < len(ops):
            op, n = ops[k]
        elif end:
            return pos
        else:
            op, n = ops[-1]
        k += 1
        if op == 'r':
            want = data[pos:] if n is None or n < 0 else data[pos:pos + n]
            got = stream.read(n) if n is not None else stream.read()
        else:
            want = data[pos:line_end(data, pos, n)]
            got = stream.readline(n) if n is not None else stream.readline()
        same(got, want, 'content at %d from %s(%s)' % (pos, op, n))
        pos += len(got)
        if k > len(ops) and not got or k > 200000:
            break
    same(stream.read(), b'', 'content after the end')
    return pos


def run_case(case):
    from warcio.archiveiterator import ArchiveIterator
    kind, te, ce, ni, p, ci, fi, seq, mode = case
    r = record(kind, te, ce, ni, p, ci, fi)
    nb = neighbours()
    arc = kind.startswith('arc')
    before, after = (nb['arc_dns'], nb['arc_resp']) if arc else (nb['resource'], nb['resp_chunked_gzip'])
    recs = [before, r, after]
    data, spans = ref.layout(recs, mode)
    got = 0
    for raw in (False, True) if list(seq) == SEQS[0] else (False,):
        it = ArchiveIterator(io.BytesIO(data), arc2warc=kind == 'arc2warc')
        for i, x in enumerate(it):
            require(i < 3, 'a record too many')
            if i == 1:
                require(x.http_headers is not None, 'no HTTP headers')
                same([tuple(h) for h in x.http_headers.headers], r.http[2], 'HTTP headers')
                if raw:
                    same(x.raw_stream.read(), r.body, 'raw stream')
                else:
                    got = consume(x.content_stream(), r.content, seq)
                same((it.get_record_offset(), it.get_record_length()), spans[1], 'offset and length')
            elif i == 2 or not raw:
                same(x.content_stream().read(), recs[i].content, 'content of record %d' % i)
        same(i, 2, 'last record')
        same(it.err_count, 0, 'err_count')
    return Out((kind, te, ce, ni, p, ci, fi, repr(seq), mode), nontrivial=got > 0)
