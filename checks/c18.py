"""C18: every record of every archive in the space extracted at its offset, with every
option, through the real command, against the bytes stored."""
import functools
import itertools
import os
import re

from mc import cli, menu, ref
from mc.core import Out, Violation, require, same

ID = 'C18'
LEVEL = 'exploration'
RULE = ('every ordered pair and small triple of records x storage x separator x option, every record extracted at its own offset; record sizes around every read '
        'size; non-trivial: all')
ASSUMPTIONS = ['Archives are well-formed and the offset is that of a record.', 'Headers are printed as held (names, values and order as stored, in UTF-8).']
OPTS = ['', '--payload', '--headers']
SIZES = [0, 1, 2, 8191, 8192, 16383, 16384, 16385, 32768, 65535, 65536, 65537, 131072, 200000]
SEPS = [None, b'\n', b'\r\n\r\n\r\n']


def BOUNDS(tier):
    return dict(records=len(recs()), options=OPTS, storage=['plain', 'gz', 'gz0', 'gznamed'], sizes=SIZES, pairs='all' if tier == 'thorough' else 'every record with 6 neighbours')


@functools.lru_cache(None)
def recs():
    m = dict(menu.warc_menu())
    m.update(menu.big_menu())
    m.update(menu.arc_menu())
    m.update(menu.scale_menu())
    m.update(menu.scale_arc_menu())

    def add(n, r):
        r.name = n
        m[n] = r
    add('resp_nohead', ref.warc('response', 'http://example.com/nh', b'body only', b'HTTP/1.1 200 OK\r\n\r\n', ('HTTP/1.1', '200 OK', []), 'application/http; msgtype=response'))
    add('req_nohead', ref.warc('request', 'http://example.com/nh', b'', b'GET / HTTP/1.0\r\n\r\n', ('GET', '/ HTTP/1.0', []), 'application/http; msgtype=request'))
    add('resp_nostat', ref.warc('response', 'http://example.com/ns', b'b', b'HTTP/1.1\r\nA: b\r\n\r\n', ('HTTP/1.1', '', [('A', 'b')]), 'application/http; msgtype=response'))
    add('resp_barest', ref.warc('response', 'http://example.com/bb', b'b\n', b'HTTP/1.1\r\n\r\n', ('HTTP/1.1', '', []), 'application/http; msgtype=response'))
    return m


def units(tier):
    T = tier == 'thorough'
    out = []
    for n in recs():
        out.append(dict(t='pairs', n=n, full=T))
    for s in SIZES:
        out.append(dict(t='size', s=s))
    return out


def explore(u, run):
    if u['t'] == 'pairs':
        n = u['n']
        others = [o for o in recs() if o.startswith('arc') == n.startswith('arc')]
        if not u['full']:
            keep = ['response', 'resp_chunked_gzip', 'warcish', 'revisit_empty', 'request_post', 'big_chunked', 'arc_header', 'arc_resp_space', 'arc_dns', 'arc_chunked']
            others = [o for o in others if o in keep]
        for o in others:
            for fmt in ('plain', 'gz', 'gz0', 'gznamed'):
                for opt in range(3):
                    for si in range(len(SEPS) if fmt == 'plain' and opt != 1 else 1):
                        run(([n, o], fmt, si, 0, opt))
                        run(([o, n], fmt, si, 1, opt))
                        run(([o, n, o], fmt, si, 1, opt))
    else:
        for kind in ('resource', 'http', 'chunked', 'gzip', 'br', 'deflate', 'arc', 'text'):
            for fmt in ('plain', 'gz', 'gz0'):
                for opt in range(3):
                    for k in (0, 1):
                        run((['#%s%d' % (kind, u['s']), 'arc_resp' if kind == 'arc' else 'response'][::1 if k == 0 else -1], fmt, 0, k, opt))


@functools.lru_cache(200)
def get(n):
    if n[0] != '#':
        return recs()[n]
    kind, size = re.match(r'#(\D+)(\d+)', n).groups()
    d = ref.pat(int(size), 4)
    if kind == 'resource':
        return ref.warc('resource', 'http://example.com/r', d, ctype='application/octet-stream')
    if kind == 'text':
        return ref.warc('resource', 'http://example.com/r', ref.text(int(size)), ctype='text/plain')
    if kind == 'http':
        return ref.w_response(d)
    if kind == 'arc':
        return ref.arc_response(d)
    if kind == 'chunked':
        return menu._chunk_resp(d, [8192, 1000])
    return menu._enc_resp(d, {'deflate': 'rawdeflate'}.get(kind, kind))


def run_case(case):
    names, fmt, si, k, opt = case
    rs = [get(n) for n in names]
    data, spans = ref.layout(rs, fmt, SEPS[si] if SEPS[si] and rs[0].fmt == 'warc' else None)
    r = rs[k]
    with cli.scratch() as d:
        p = os.path.join(d, 'a.warc')
        with open(p, 'wb') as f:
            f.write(data)
        code, out, err = cli.run(['extract', p, str(spans[k][0])] + [OPTS[opt]] * bool(opt))
    same(code, 0, 'exit value')
    if OPTS[opt] == '--payload':
        same(out, r.content, 'payload')
        return Out((names[k], fmt, opt))
    tail = b''
    if r.http:
        first = r.http[0] + (' ' + r.http[1] if r.http[1] else '')
        heads = [ref.http_block(first, r.http[2])]
        if not r.http[1]:
            heads.append(ref.http_block(first + ' ', r.http[2]))
    else:
        heads = [b'']
    body = b'' if opt == 2 else (r.body if r.http else r.block)
    head, sep, rest = out.partition(b'\r\n\r\n')
    require(rest in [h + body for h in heads], 'after the record headers: %s, expected %s', rest, heads[0] + body)
    lines = head.decode('utf-8').split('\r\n')
    if r.fmt == 'warc':
        same(lines[0].rstrip(), r.version, 'version line')
    got = [tuple(x.split(': ', 1)) if ': ' in x else (x.rstrip(':'), '') for x in lines[1:]]
    same(got, r.headers, 'record headers')
    return Out((names[k], fmt, opt))
