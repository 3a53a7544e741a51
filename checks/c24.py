"""C24: every truncation and every single-byte edit of small archives, read in several ways."""
import io
import sys

from mc import menu, ref, streams
from mc.core import Out, Violation, require, same

ID = 'C24'
LEVEL = 'fault_enumeration'
RULE = ('every truncation point and, at every byte, every replacement and insertion of the menu and every deletion of bytes and short texts, runs deleted, zeroed and doubled (thorough: also pairs of edits near each other), for '
        'every archive x reading configuration; non-trivial: the damage changes the file')
ASSUMPTIONS = ['A record counts as stored before the damage if its block (in gzip: its member) ends at or before the first damaged byte.',
               'Warnings on standard error are allowed.']
TIMEOUT = 20

BYTES = [0x0a, 0x0d, 0x20, 0x3a, 0x30, 0x39, 0x2d, 0x41, 0x00, 0xff]
BYTES_T = BYTES + [0x1f, 0x8b, 0x09, 0x0b, 0x1c, 0x2b, 0x2e, 0x3b, 0x3c, 0x57, 0x5f, 0x80, 0x85, 0xc3]
TEXTS = [b'\xd9\xa3', b'\xc2\xb2', b'\xe2\x80\xa8', b'\r\n', b'\r\n\r\n', b'-1', b'9' * 20, b'9' * 5000, b'\r\nWARC/1.0\r\n', b'\x1f\x8b\x08\0']


def dig(r, good=True):
    r.headers[1:1] = [('WARC-Payload-Digest', ref.sha1_32(r.body)), ('WARC-Block-Digest', ref.sha1_32(r.block))]
    return r


def archives():
    W, A = menu.warc_menu, menu.arc_menu
    w, a = W(), A()
    out = {}

    def add(name, recs, mode='plain'):
        data, spans = ref.layout(recs, mode)
        if mode == 'plain':
            ends = [s[0] + len(r.stored()) for r, s in zip(recs, spans)]
        else:
            ends = [s[0] + s[1] for s in spans]
        out[name] = (recs, data, ends)
    dig1 = [dig(w['resp_chunked_gzip']), dig(w['metadata']), w['revisit_headers']]
    add('warc', dig1)
    add('warcgz', dig1, 'gz')
    enc = [w['resp_br'], w['request_post'], dig(w['resp_deflate'])]
    add('enc', enc)
    add('encgz', enc, 'gz0')
    add('arc', [a['arc_header'], a['arc_chunked'], a['arc_resp_space']])
    add('arcgz', [a['arc_header_meta'], a['arc_resp'], a['arc_empty']], 'gz')
    add('odd', [w['warcish'], w['utf8_header'], w['resp_latin1'], w['lower_names']])
    add('named', [w['warcinfo'], w['one_byte']], 'gznamed')
    return out


CONFIGS = {
    'plain': dict(),
    'noparse': dict(no_record_parse=True, check_digests=True),
    'digests': dict(check_digests=True, ensure_http_headers=True),
    'raise': dict(check_digests='raise', arc2warc=True),
    'arc2warc': dict(arc2warc=True),
    'verify': dict(verify_http=True),
    'small': dict(block_size=7),
    'unseek': dict(block_size=300),
}
READS = {'plain': 'content', 'noparse': 'raw', 'digests': 'raw', 'raise': 'content', 'arc2warc': 'raw', 'verify': 'skip', 'small': 'lines', 'unseek': 'small'}
ARCHIVES = archives()


def BOUNDS(tier):
    return dict(archives={k: len(v[1]) for k, v in ARCHIVES.items()}, configurations=sorted(CONFIGS), byte_menu=len(BYTES_T if tier == 'thorough' else BYTES) + 2)


def units(tier):
    return [dict(a=a, c=c, p=p, n=len(ARCHIVES[a][1]), t=tier == 'thorough') for a in ARCHIVES for c in CONFIGS for p in range(0, len(ARCHIVES[a][1]) + 1, 60)]


def explore(u, run):
    data = ARCHIVES[u['a']][1]
    for p in range(u['p'], min(u['p'] + 60, len(data) + 1)):
        if p < len(data):
            run((u['a'], u['c'], 'cut', p, 0))
            run((u['a'], u['c'], 'del', p, 1))
            menu_ = list(BYTES_T if u['t'] else BYTES)
            for b in menu_ + [data[p] ^ 1, data[p] ^ 0x20]:
                if b != data[p]:
                    run((u['a'], u['c'], 'set', p, b))
            for n in (2, 3, 5, 16, 100) if u['t'] else (2, 20):
                run((u['a'], u['c'], 'del', p, n))
                run((u['a'], u['c'], 'zero', p, n))
                run((u['a'], u['c'], 'dup', p, n))
            if u['t']:
                for q in (1, 2, 3):
                    for b in (0x0a, 0x20, 0x30, 0xff):
                        for b2 in (0x0a, 0x20, 0x30, 0xff):
                            run((u['a'], u['c'], 'set2', p, (b, q, b2)))
        menu_ = BYTES_T if u['t'] else (0x0a, 0x20, 0x30, 0x41, 0xff)
        for b in menu_:
            run((u['a'], u['c'], 'ins', p, b))
        for i in range(len(TEXTS)):
            run((u['a'], u['c'], 'text', p, i))


def damage(data, how, p, x):
    if how == 'cut':
        return data[:p]
    if how == 'del':
        return data[:p] + data[p + x:]
    if how == 'set':
        return data[:p] + bytes([x]) + data[p + 1:]
    if how == 'ins':
        return data[:p] + bytes([x]) + data[p:]
    if how == 'text':
        return data[:p] + TEXTS[x] + data[p:]
    if how == 'zero':
        return data[:p] + b'\0' * len(data[p:p + x]) + data[p + x:]
    if how == 'dup':
        return data[:p] + data[p:p + x] + data[p:]
    if how == 'set2':
        b, q, b2 = x
        out = bytearray(data)
        out[p] = b
        if p + q < len(out):
            out[p + q] = b2
        return bytes(out)


def drain(record, how):
    if how == 'skip':
        return None
    s = record.raw_stream if how == 'raw' else record.content_stream()
    out = []
    n = 0
    while True:
        b = s.readline() if how == 'lines' else s.read(13) if how == 'small' else s.read()
        if not b:
            break
        out.append(b)
        n += 1
        if n > 100000:
            raise Violation('reading a record does not end')
    return b''.join(out)


def hd(h):
    return None if h is None else (h.protocol, h.statusline, [tuple(x) for x in h.headers if x[0].lower() != 'warc-record-id'])


def read(data, cfg):
    """what iterating gives, and the exception that ends it"""
    from warcio.archiveiterator import ArchiveIterator
    from warcio.exceptions import ArchiveLoadFailed
    from warcio.statusandheaders import StatusAndHeadersParserException
    fh = streams.Unseekable(data, 50) if cfg == 'unseek' else io.BytesIO(data)
    it = ArchiveIterator(fh, **CONFIGS[cfg])
    got = []
    err = sys.stderr
    sys.stderr = io.StringIO()
    try:
        try:
            for r in it:
                e = [r.format, r.rec_type, hd(r.rec_headers), hd(r.http_headers), r.length, r.content_type, None, None, None]
                got.append(e)
                e[6] = drain(r, READS[cfg])
                e[7] = (r.digest_checker.passed, list(r.digest_checker.problems))
                if len(got) > 1000:
                    raise Violation('iterating does not end')
            return got, 'end', it.err_count
        except ArchiveLoadFailed:
            return got, 'ArchiveLoadFailed', 0
        except StatusAndHeadersParserException:
            # the verification of HTTP headers that was asked for
            if cfg != 'verify':
                raise
            return got, 'verify', 0
    finally:
        sys.stderr = err


WANT = {}


def run_case(c):
    a, cfg, how, p, x = c
    recs, data, ends = ARCHIVES[a]
    if (a, cfg) not in WANT:
        WANT[(a, cfg)], how_ended, errs = read(data, cfg)
        same((len(WANT[(a, cfg)]), how_ended, errs), (len(recs), 'end', 0), 'reading the undamaged archive')
        if 'gz' not in a:
            for e, r in zip(WANT[(a, cfg)], recs):
                if READS[cfg] == 'raw' and not CONFIGS[cfg].get('arc2warc'):
                    same(e[6], r.block if cfg == 'noparse' else r.block if r.http is None else r.body, 'raw stream, undamaged')
    want = WANT[(a, cfg)]
    bad = damage(data, how, p, x)
    got, how_ended, errs = read(bad, cfg)
    if bad == data:
        p = len(data)
    whole = sum(1 for e in ends if e <= p)
    require(len(got) >= whole, '%s of %s records before the damage delivered (%s)', len(got), whole, how_ended)
    for i in range(whole):
        same(got[i], want[i], 'record %d, stored before the damage' % i)
    if how == 'cut' and len(got) > whole:
        require(len(got) == whole + 1, 'more records than the truncated file holds: %s', got)
        if got[whole][6] and READS[cfg] == 'raw':
            full = recs[whole].block
            require(full.startswith(got[whole][6]) or recs[whole].body.startswith(got[whole][6]), 'the record cut off delivers %s', got[whole][6])
    return Out((a, cfg, how, len(got), how_ended, errs), nontrivial=bad != data, transitions=len(got) + 1, states=[(a, cfg, how, p, str(x))])
