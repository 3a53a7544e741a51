"""C27: every sequence of build, write and read-back operations up to a depth, on one writer
and with shared arguments, against a fresh process and writer per record."""
import copy
import io
import itertools
import os
import pickle

from mc import ref, streams
from mc.core import HarnessError, Out, require, same

ID = 'C27'
LEVEL = 'model_checking'
RULE = ('every sequence of operations up to the depth for each writer configuration; the model is the list of the bytes each record gives when written alone in a fresh process; '
        'non-trivial: at least two operations, one of which writes')
ASSUMPTIONS = ['Record ids and dates are supplied.', 'A record is written once; a stream got from an in-memory writer is not read any further after the next write.']

CONFIGS = {'buf': dict(gzip=False), 'bufgz': dict(gzip=True), 'buf11': dict(gzip=False, warc_version='1.1'), 'filter': dict(gzip=False, header_filter=1),
           'file': dict(gzip=False), 'filegz': dict(gzip=True), 'default': dict()}
# operations: writing one record, reading back
WRITES = ['resp', 'parsed', 'meta', 'revisit', 'info', 'pair', 'empty', 'nolen', 'uni']
URIS = dict.fromkeys(['resp', 'meta', 'revisit', 'pair', 'empty'], 'same')
READS = ['contents', 'stream', 'part', 'all', 'line', 'iter', 'iter1', 'more']
LATE = ['build:resp', 'build:meta', 'flush']         # built now, written at the next 'flush' in order
DEEP = ['resp', 'pair', 'nolen', 'contents', 'part', 'more', 'all', 'iter1', 'build:meta', 'flush']
BIG = ['big', 'resp', 'part', 'more', 'contents', 'all', 'stream']


def BOUNDS(tier):
    return dict(configurations=sorted(CONFIGS), operations=WRITES + READS + LATE, depth=3, deep_operations=DEEP, deep_depth=6 if tier == 'thorough' else 5, shared_arguments='all sequences', shared_http_headers='3 writers with different filters x 4 kinds of record x 5 edits, depth 3')


def units(tier):
    for c in CONFIGS:
        for o in WRITES + ['big', 'build:resp', 'build:meta']:
            base(c, o)
    out = []
    T = tier == 'thorough'
    for c in CONFIGS:
        mem = not c.startswith('file')
        ops = WRITES + LATE + (READS if mem else [])
        for o in ops:
            out.append(dict(c=c, first=[o], ops=ops, n=3 if not T else 4))
        deep = [o for o in DEEP if mem or o not in READS]
        for o in itertools.product(deep, repeat=2):
            if c in ('buf', 'bufgz', 'default') or T:
                out.append(dict(c=c, first=list(o), ops=deep, n=6 if T else 5))
        if mem:
            for o in BIG:
                out.append(dict(c=c, first=[o], ops=BIG, n=4))
    for o in itertools.product(HW, HT):
        out.append(dict(http=list(o)))
    return out


HW = ['none', 'drop', 'change']                     # header filters of the writers
HT = ['response', 'nolen', 'revisit', 'request']
HE = ['', 'add', 'replace', 'remove', 'status']     # done to the HTTP headers before the next record


def explore(u, run):
    if 'http' in u:
        first = tuple(u['http']) + ('',)
        for k in range(2):
            for rest in itertools.product(itertools.product(HW, HT, HE), repeat=k + 1):
                if k and any(x[2] for x in rest[:1]) and rest[0][0] == 'change':
                    continue
                run(('http', [first] + list(rest)))
        return
    for n in range(0, u['n'] - len(u['first']) + 1):
        for rest in itertools.product(u['ops'], repeat=n):
            run((u['c'], list(u['first']) + list(rest)))


class Args(object):
    """arguments shared by all the operations of a sequence"""

    def __init__(self):
        from warcio.statusandheaders import StatusAndHeaders
        self.dicts = {n: {'WARC-Record-ID': '<urn:uuid:%s>' % n, 'WARC-Date': '2020-01-02T03:04:05Z'} for n in WRITES + ['big', 'pair2']}
        # headers only some of the records have
        for n in ('resp', 'uni', 'pair', 'nolen'):
            self.dicts[n].update({'WARC-IP-Address': '192.0.2.%d' % len(n), 'X-Own': n, 'WARC-Target-URI': 'http://replaced/'})
        self.dicts['resp']['WARC-Warcinfo-ID'] = '<urn:uuid:i>'
        self.dicts['pair2']['WARC-Concurrent-To'] = '<urn:uuid:own>'
        self.dicts['empty']['Content-Type'] = 'text/own'
        self.http = [('A', 'b'), ('X-Drop', 'c'), ('A', '2')]
        self.uni = [('X-U', 'caf\xe9'), ('Content-Disposition', 'attachment; filename*="\u4e2d.txt"')]
        self.info = {'software': 'mc', 'empty': '', 'n': 4}
        self.payload = {n: b'payload of ' + n.encode() for n in ('resp', 'meta', 'uni', 'nolen', 'pair', 'pair2')}
        self.payload['parsed'] = b'HTTP/1.0 404 No\r\nB: c\r\n\r\nparsed'
        self.payload['big'] = ref.pat(600000, 2)
        self.before = copy.deepcopy((self.dicts, (self.http, self.uni), self.info, self.payload))

    def unchanged(self):
        same((self.dicts, (self.http, self.uni), self.info), self.before[:3], 'arguments of the caller')
        require(self.payload == self.before[3], 'payloads of the caller changed')

    def build(self, w, op):
        from warcio.statusandheaders import StatusAndHeaders
        d = self.dicts[op]
        uri = 'http://example.com/' + URIS.get(op, op)

        def http(status='200 OK', proto='HTTP/1.1'):
            return StatusAndHeaders(status, self.http, protocol=proto)
        p = io.BytesIO(self.payload.get(op, b''))
        if op == 'resp':
            return w.create_warc_record(uri, 'response', payload=p, length=len(self.payload[op]), warc_headers_dict=d, http_headers=http())
        if op == 'uni':
            return w.create_warc_record(uri, 'response', payload=p, warc_headers_dict=d, http_headers=StatusAndHeaders('200 OK', self.uni, protocol='HTTP/1.1'))
        if op == 'parsed':
            return w.create_warc_record(uri, 'response', payload=p, warc_headers_dict=d)
        if op == 'meta' or op == 'big':
            return w.create_warc_record(uri, 'metadata', payload=p, warc_headers_dict=d, warc_content_type='text/x')
        if op == 'revisit':
            return w.create_revisit_record(uri, 'sha1:ABC', 'http://e/', '2001-01-01T00:00:00Z', http_headers=http(), warc_headers_dict=d)
        if op == 'info':
            r = w.create_warcinfo_record('f.warc', self.info)
            r.rec_headers.replace_header('WARC-Record-ID', '<urn:uuid:info>')
            r.rec_headers.replace_header('WARC-Date', '2020-01-02T03:04:05Z')
            return r
        if op == 'empty':
            return w.create_warc_record(uri, 'resource', warc_headers_dict=d)
        if op == 'nolen':
            return w.create_warc_record(uri, 'resource', payload=streams.Unseekable(self.payload[op], 5), warc_headers_dict=d)
        if op == 'pair':
            return (w.create_warc_record(uri, 'request', payload=io.BytesIO(self.payload['pair2']), warc_headers_dict=self.dicts['pair2'], http_headers=http('/ HTTP/1.1', 'GET')),
                    w.create_warc_record(uri, 'response', payload=p, warc_headers_dict=d, http_headers=http('204 No')))
        raise ValueError(op)


def write(w, r):
    if isinstance(r, tuple):
        w.write_request_response_pair(*r)
    else:
        w.write_record(r)


def make(c):
    from warcio.warcwriter import BufferWARCWriter, WARCWriter
    kw = dict(CONFIGS[c])
    if kw.get('header_filter'):
        kw['header_filter'] = lambda h: None if h[0] == 'X-Drop' else h
    if c.startswith('file'):
        out = io.BytesIO()
        w = WARCWriter(out, **kw)
        return w, out.getvalue
    w = BufferWARCWriter(**kw)
    return w, w.get_contents


BASE = {}


def base(c, op):
    """the bytes the record gives alone in a fresh process"""
    op = op.split(':')[-1]
    if (c, op) not in BASE:
        r, wr = os.pipe()
        pid = os.fork()
        if not pid:
            try:
                os.close(r)
                w, get = make(c)
                a = Args()
                write(w, a.build(w, op))
                with os.fdopen(wr, 'wb') as f:
                    f.write(get())
            finally:
                os._exit(0)
        os.close(wr)
        with os.fdopen(r, 'rb') as f:
            data = f.read()
        os.waitpid(pid, 0)
        if not data:
            raise HarnessError('%s alone gives nothing in %s' % (op, c))
        recs = ref.parse_written(data, CONFIGS[c].get('gzip', True))
        same(len(recs), 2 if op == 'pair' else 1, 'records of %s alone' % op)
        BASE[c, op] = data
    return BASE[c, op]


def shared_http(ops):
    """records with one object holding their HTTP headers, written by writers with different filters"""
    from warcio.statusandheaders import StatusAndHeaders
    from warcio.warcwriter import BufferWARCWriter
    filters = {'none': None, 'drop': lambda h: None if h[0] == 'X-Drop' else h, 'change': lambda h: (h[0], 'new') if h[0] == 'A' else h}
    ws = {n: BufferWARCWriter(gzip=False, header_filter=f) for n, f in filters.items()}
    h = StatusAndHeaders('200 OK', [('A', 'b'), ('X-Drop', 'c'), ('Z', 'z')], protocol='HTTP/1.1')
    model = ['200 OK', [('A', 'b'), ('X-Drop', 'c'), ('Z', 'z')]]
    want = {n: [] for n in ws}
    for i, (w, kind, edit) in enumerate(ops):
        if edit == 'add':
            h.add_header('N%d' % i, 'v')
            model[1].append(('N%d' % i, 'v'))
        elif edit == 'replace':
            h.replace_header('z', 'z%d' % i)
            model[1] = [(n, 'z%d' % i if n == 'Z' else v) for n, v in model[1]]
        elif edit == 'remove':
            h.remove_header('a')
            model[1] = [x for x in model[1] if x[0] != 'A']
        elif edit == 'status':
            h.statusline = model[0] = '20%d X' % i
        body = b'' if kind == 'revisit' else b'body %d' % i
        if kind == 'revisit':
            r = ws[w].create_revisit_record('http://e/', 'sha1:ABC', 'http://e/', '2001-01-01T00:00:00Z', http_headers=h)
        elif kind == 'nolen':
            r = ws[w].create_warc_record('http://e/', 'response', payload=streams.Unseekable(body, 3), http_headers=h)
        else:
            r = ws[w].create_warc_record('http://e/', kind, payload=io.BytesIO(body), length=len(body), http_headers=h)
        ws[w].write_record(r)
        head = 'HTTP/1.1 ' + model[0] + '\r\n'
        for x in model[1]:
            x = filters[w](x) if filters[w] else x
            if x:
                head += ': '.join(x) + '\r\n'
        want[w].append(head.encode() + b'\r\n' + body)
        same((h.statusline, h.headers), tuple(model), 'headers of the caller')
    for n in ws:
        recs = ref.parse_warc(ws[n].get_contents())
        same([p.block for p in recs], want[n], 'blocks written with filter ' + n)
        for p in recs:
            same(p.get('WARC-Block-Digest'), ref.sha1_32(p.block), 'block digest')
    return Out(('http', len(ops)), nontrivial=True, transitions=len(ops), states=[('http', tuple(map(tuple, ops)))])


def run_case(case):
    if case[0] == 'http':
        return shared_http(case[1])
    c, ops = case
    w, get = make(c)
    a = Args()
    want = b''
    pending = []
    wrote = 0
    seen = []
    pos = None          # of the stream being read
    for i, op in enumerate(ops):
        if op.startswith('build:'):
            o = op.split(':')[1]
            pending.append((o, a.build(w, o)))
        elif op == 'flush':
            for o, r in pending:
                write(w, r)
                pos = None
                want += base(c, o)
                wrote += 1
            pending = []
        elif op == 'contents':
            got = get()
            same(got, want, 'contents after %d operations' % i)
        elif op == 'more':
            if pos is not None:
                same(s.read(7), want[pos:pos + 7], 'what the stream goes on with')
                pos = min(pos + 7, len(want))
        elif op in READS:
            s = w.get_stream()
            pos = 0
            if op == 'part':
                same(s.read(5), want[:5], 'beginning of the stream')
                pos = min(5, len(want))
            elif op == 'all':
                same(s.read(), want, 'stream')
                pos = len(want)
            elif op == 'line':
                line = want[:want.find(b'\n') + 1] or want
                same(s.readline(), line, 'first line of the stream')
                pos = len(line)
            elif op in ('iter', 'iter1'):
                pos = None
                from warcio.archiveiterator import ArchiveIterator
                try:
                    for r in ArchiveIterator(s):
                        seen.append(r.rec_type)
                        if op == 'iter1':
                            r.raw_stream.read(2)
                            break
                except Exception:
                    require(False, 'reading what was written fails')
        else:
            write(w, a.build(w, op))
            pos = None
            want += base(c, op)
            wrote += 1
    same(get(), want, 'what the writer holds')
    a.unchanged()
    return Out((c, wrote, len(want)), nontrivial=len(ops) > 1 and wrote > 0, transitions=len(ops), states=[(c, len(want), tuple(ops))])
