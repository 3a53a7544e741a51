"""C31: every read the library issues on its input, for all small archives x deliveries x
consumption, against the smallest number of input bytes that suffices."""
import functools
import io
import itertools
import zlib

from mc import build, menu, ref
from mc.core import Out, Violation, require, same

ID = 'C31'
LEVEL = 'exploration'
RULE = ('all archives of up to 3 menu records x storage x delivery of the input (byte by byte, capped, full blocks, cut at every position) x consumption of each record x options; after every '
        'step the bytes taken from the input are compared with what is needed; non-trivial: a record was delivered')
ASSUMPTIONS = ['What is needed for a coded payload is taken to be the chunk (or, not chunked, the record) holding it.', 'Records of unknown length are not included.']
W = ['response', 'resp_chunked_gzip', 'resp_chunked', 'resp_gzip', 'resp_empty_body', 'request_post', 'metadata', 'revisit_headers', 'revisit_empty', 'warcish', 'nl_only', 'resp_utf8', 'low_dig', 'resp_dig', 'empty_resource']
A = ['arc_header', 'arc_resp', 'arc_chunked', 'arc_nl', 'arc_empty', 'arc_resp_lf']
ACTS = ['skip', 'raw', 'raw3', 'lines', 'line', 'content', 'content5', 'length', 'three_length', 'clines']
OPTS = [(), ('digests',), ('noparse',), ('ensure',), ('conv',)]


def BOUNDS(tier):
    return dict(warc_menu=W, arc_menu=A, records=3, actions=ACTS, options=OPTS, storage=['plain', 'gz', 'gz0'], deliveries='1 byte, 13 bytes, blocks of 1, 50, 16384, every cut of the input into two')


def units(tier):
    out = []
    for names in [[w] for w in W] + [[a] for a in A]:
        out.append(dict(t='one', names=names))
    pool = W if tier == 'thorough' else W[:8]
    for a in pool:
        out.append(dict(t='two', a=a, arc=False))
    for a in A:
        out.append(dict(t='two', a=a, arc=True))
    for a in (W if tier == 'thorough' else W[:4]):
        out.append(dict(t='three', a=a))
    for b in ('big_16385', 'big_40000', 'big_resp', 'big_chunked', 'big_chunked_plain', 'big_zeros', 'big_http_header', 'big_nonl'):
        out.append(dict(t='big', b=b))
    out += [dict(t='reader', c=c, k=k) for c in range(len(CONTENTS)) for k in ('plain', 'gzip', 'members')]
    out.append(dict(t='write'))
    return out


def explore(u, run):
    t = u['t']
    if t == 'one':
        for act in ACTS:
            for m in ('plain', 'gz', 'gz0'):
                for o in OPTS:
                    for d in DELIV:
                        run(('read', (u['names'][0],), m, d, (act,), o))
                n = len(archive((u['names'][0],), m)[1])
                for i in range(1, n):
                    run(('read', (u['names'][0],), m, ('cut', i), (act,), ()))
    elif t == 'two':
        pool = A if u['arc'] else W
        for b in pool:
            for x, y in itertools.product(ACTS, repeat=2):
                for m in ('plain', 'gz'):
                    for d in DELIV[:1] + DELIV[2:4]:
                        run(('read', (u['a'], b), m, d, (x, y), ()))
            for x in ACTS:
                for m in ('plain', 'gz'):
                    n = len(archive((u['a'], b), m)[1])
                    for i in range(1, n, 1 if x in ('skip', 'raw', 'length') else 7):
                        run(('read', (u['a'], b), m, ('cut', i), (x, 'raw'), ()))
                    for o in OPTS[1:]:
                        run(('read', (u['a'], b), m, ('each', 1), (x, 'content'), o))
    elif t == 'three':
        for b, c in itertools.product(W, repeat=2):
            for x, y in itertools.product(('skip', 'raw3', 'length', 'content'), repeat=2):
                for m in ('plain', 'gz'):
                    run(('read', (u['a'], b, c), m, ('each', 1), (x, y, 'raw'), ()))
    elif t == 'big':
        for x in ACTS:
            for m in ('plain', 'gz', 'gz0'):
                for d in (('each', 1), ('each', 1000), ('block', 1000), ('block', 16384), ('block', 65536)):
                    if d == ('each', 1) and (u['b'] in ('big_zeros',) or x not in ('raw', 'line')):
                        continue
                    run(('read', (u['b'], 'response'), m, d, (x, 'raw'), ()))
                    run(('read', ('response', u['b']), m, d, ('skip', x), ()))
    elif t == 'reader':
        n = len(CONTENTS[u['c']])
        ops = [('r', k) for k in (0, 1, 2, 5, 30, n)] + [('l', None), ('l', 3), ('l', 0), ('l', -1)]
        for seq in itertools.product(ops, repeat=3):
            for d in DELIV:
                run(('reader', u['c'], u['k'], d, seq))
    else:
        for name in build.menu():
            for gzip in (False, True):
                run(('write', name, gzip))


DELIV = [('each', 1), ('each', 13), ('block', 1), ('block', 50), ('block', 16384)]
CONTENTS = [b'', b'x', b'line\r\nline two\nend', ref.text(60, 2), b'\n\n\n']


class Line(object):
    """input that offers read and tell only, and notes what is taken"""

    def __init__(self, data, deliv):
        self.data = data
        self.pos = 0
        self.before_last = -1
        self.block = deliv[1] if deliv[0] == 'block' else 16384
        self.cap = deliv[1] if deliv[0] == 'each' else 1 << 40
        self.cut = deliv[1] if deliv[0] == 'cut' else -1

    def tell(self):
        return self.pos

    def read(self, n=-1):
        require(n == self.block, 'read(%s) of the input, block size being %s', n, self.block)
        k = min(n, self.cap)
        if self.pos < self.cut:
            k = min(k, self.cut - self.pos)
        self.before_last = self.pos
        out = self.data[self.pos:self.pos + k]
        self.pos += len(out)
        return out

    def check(self, need, what):
        """every read was made while fewer than need bytes had been taken"""
        require(self.before_last < need, '%s: read on after %s bytes where %s suffice', what, self.before_last, need)


@functools.lru_cache(None)
def menus():
    m = {}
    for f in (menu.warc_menu, menu.arc_menu, menu.big_menu):
        m.update(f())
    for n, src in (('low_dig', 'resource'), ('resp_dig', 'response')):
        r = m[src]
        m[n] = ref.Rec(r.fmt, r.rec_type, r.headers + [('WARC-Block-Digest', ref.sha1_32(r.block)), ('WARC-Payload-Digest', ref.sha1_32(r.body))], r.httpblock, r.http, r.body, r.version, r.content)
    return m


def inflate_map(member):
    """for every prefix of a gzip member, the number of bytes it decompresses to"""
    d = zlib.decompressobj(31)
    out = [0]
    n = 0
    for i in range(len(member)):
        n += len(d.decompress(member[i:i + 1]))
        out.append(n)
    return out


def chunk_ends(body):
    """[(plain bytes so far, end of the chunk)]"""
    out = []
    pos = n = 0
    while True:
        e = body.index(b'\r\n', pos) + 2
        k = int(body[pos:e].split(b';')[0], 16)
        if not k:
            out.append((1 << 40, len(body)))
            return out
        pos = e + k + 2
        n += k
        out.append((n, pos))


@functools.lru_cache(300)
def archive(names, mode):
    recs = [menus()[n] for n in names]
    data, spans = ref.layout(recs, mode)
    maps = [None if mode == 'plain' else inflate_map(data[s:s + n]) for s, n in spans]
    return recs, data, spans, maps


INF = 1 << 60


def run_case(case):
    if case[0] == 'reader':
        return reader(*case[1:])
    if case[0] == 'write':
        return writing(*case[1:])
    from warcio.archiveiterator import ArchiveIterator
    _, names, mode, deliv, acts, opts = case
    recs, data, spans, maps = archive(tuple(names), mode)
    fh = Line(data, deliv)
    kw = {}
    if 'digests' in opts:
        kw['check_digests'] = 'raise'
    if 'noparse' in opts:
        kw['no_record_parse'] = True
    if 'ensure' in opts:
        kw['ensure_http_headers'] = True
    if 'conv' in opts:
        kw['arc2warc'] = True
    it = ArchiveIterator(fh, block_size=fh.block, **kw)
    require(fh.pos == 0, 'read before the first record is asked for')

    def need(i, k):
        """input bytes needed for k bytes of record i (from its first)"""
        s, n = spans[i]
        if mode == 'plain':
            return s + k
        import bisect
        return s + bisect.bisect_left(maps[i], k)

    def need_end(i):
        """for knowing where the next record begins"""
        s, n = spans[i]
        if mode != 'plain':
            return s + n + 1 if i + 1 < len(recs) else INF
        if i + 1 == len(recs):
            return INF
        s2 = spans[i + 1][0]
        return s2 + data[s2:].index(b'\n') + 1

    for i, rec in enumerate(recs):
        what = 'record %d (%s): ' % (i, names[i])
        record = next(it)
        stored = rec.stored()
        parse = rec.http is not None and 'noparse' not in opts
        hdr = len(stored) - len(rec.block) + (len(rec.httpblock) if parse else 0)
        fh.check(need(i, hdr), what + 'delivering it')
        raw = stored[hdr:]
        act = acts[i]
        content = rec.content if parse else raw
        coded = parse and rec.content != rec.body
        st = record.raw_stream
        if act == 'raw':
            same(st.read(), raw, what + 'raw')
            fh.check(need(i, hdr + len(raw)), what + 'reading it')
        elif act == 'raw3':
            got = b''
            while True:
                b = st.read(3 if len(raw) < 1000 else 999)
                if not b:
                    break
                got += b
                fh.check(need(i, hdr + len(got)), what + 'reading %d bytes' % len(got))
            same(got, raw, what + 'raw')
            fh.check(need(i, hdr + len(got)), what + 'reading %d bytes' % len(got))
        elif act in ('lines', 'line'):
            got = b''
            while True:
                b = st.readline()
                if not b:
                    break
                got += b
                fh.check(need(i, hdr + len(got)), what + 'reading lines to %d' % len(got))
                if act == 'line':
                    break
            same(got, raw if act == 'lines' else raw[:len(got)], what + 'lines')
            fh.check(need(i, hdr + len(got)), what + 'reading lines to %d' % len(got))
        elif act in ('content', 'content5', 'clines'):
            cs = record.content_stream()
            te = parse and any(n.lower() == 'transfer-encoding' for n, _ in rec.http[2])
            ends = chunk_ends(rec.body) if te else None
            ce = parse and any(n.lower() == 'content-encoding' for n, _ in rec.http[2])
            got = b''
            while True:
                b = cs.read(5 if len(raw) < 1000 else 4999) if act == 'content5' else cs.readline() if act == 'clines' else cs.read()
                if not b:
                    break
                got += b
                if not coded:
                    fh.check(need(i, hdr + len(got)), what + 'reading %d bytes of content' % len(got))
                elif te and not ce and act != 'content' and not (act == 'clines' and b[-1:] != b'\n'):
                    fh.check(need(i, hdr + [e for n, e in ends if n >= len(got)][0]), what + 'reading %d bytes of chunked content' % len(got))
                else:
                    fh.check(need(i, hdr + len(raw)), what + 'reading content')
            same(got, content, what + 'content')
            fh.check(need(i, hdr + len(raw)), what + 'reading content')
        elif act == 'length':
            same((it.get_record_offset(), it.get_record_length()), spans[i], what + 'offset and length')
            fh.check(need_end(i), what + 'asking for its length')
        elif act == 'three_length':
            same(st.read(3), raw[:3], what + 'raw')
            fh.check(need(i, hdr + min(3, len(raw))), what + 'reading 3 bytes')
            same(it.get_record_length(), spans[i][1], what + 'length')
            fh.check(need_end(i), what + 'asking for its length')
    try:
        next(it)
    except StopIteration:
        pass
    else:
        raise Violation('a record too many')
    same(fh.pos, len(data), 'bytes read in all')
    return Out((tuple(names), mode, tuple(acts)), nontrivial=True, transitions=len(recs) * 2)


def reader(c, kind, deliv, seq):
    from warcio.bufferedreaders import BufferedReader
    content = CONTENTS[c]
    if kind == 'plain':
        data = content
        mp = None
    elif kind == 'gzip':
        data = ref.gz(content)
        mp = inflate_map(data)
    else:
        h = len(content) // 2
        data = ref.gz(content[:h]) + ref.gz(content[h:])
        m1 = inflate_map(ref.gz(content[:h]))
        mp = m1 + [h + x for x in inflate_map(ref.gz(content[h:]))[1:]]
    fh = Line(data, deliv)
    r = BufferedReader(fh, block_size=fh.block, decomp_type=None if kind == 'plain' else 'gzip', read_all_members=kind == 'members')
    require(fh.pos == 0, 'read before anything was asked for')
    model = io.BytesIO(content)
    for op, n in seq:
        fh.before_last = -1
        want = model.read(n) if op == 'r' else model.readline(n if n is not None else -1)
        got = r.read(n) if op == 'r' else r.readline(n)
        same(got, want, '%s(%s)' % (op, n))
        at = model.tell()
        if op == 'l' and n is not None and n > 0:
            full = len(want) == n or want[-1:] == b'\n'
        elif op == 'l':
            full = want[-1:] == b'\n' or n == 0
        else:
            full = len(want) == n
        if full and (at or n == 0):
            if mp is None:
                need = at
            else:
                need = next(k for k, v in enumerate(mp) if v >= at)
            require(fh.before_last < need, '%s(%s) reads on after %s bytes where %s suffice', op, n, fh.before_last, need)
    return Out((c, kind, seq[0]), transitions=len(seq))


class Sink(object):
    """output that can only be written and flushed"""

    def __init__(self):
        self.data = b''

    def write(self, b):
        self.data += b
        return len(b)

    def flush(self):
        pass




def writing(name, gzip):
    from warcio.warcwriter import WARCWriter
    from mc.streams import Device
    outs = []
    for cls in (Sink, Device):
        out = cls()
        w = WARCWriter(out, gzip=gzip)
        spec = build.menu()[name]
        for how in build.hows(spec):
            w.write_record(build.build(w, spec, how, 'bytes', True))
        outs.append(bytes(out.data))
    recs = ref.parse_written(outs[0], gzip)
    require(len(recs) == len(build.hows(build.menu()[name])), '%s records', len(recs))
    return Out(name)
