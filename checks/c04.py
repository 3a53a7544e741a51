"""C04: every record of the menu x payload size x payload stream x known length x gzip x
version, alone and in sequences: the file, parsed strictly, and what the iterator reads."""
import io
import itertools

from mc import build, menu, ref
from mc.core import Out, require, same

ID = 'C04'
LEVEL = 'exploration'
RULE = 'all combinations of menu record, way to give HTTP headers, payload stream, known/unknown length, gzip and version; all pairs (thorough: triples) of records'
ASSUMPTIONS = ['Record types and header values are as in the menu; HTTP headers are ASCII (C14 covers others).',
               'Header order is not judged when the caller gives Content-Type among the WARC headers.',
               'A revisit record keeps its HTTP headers only.']
SIZES = [0, 1, 2, 3, 100, 16383, 16384, 16385, 32768, 40001, 524287, 524288, 524289]
SIZED = ['response', 'request_post', 'resource', 'resp_loose']
SEQ = ['response', 'resp_empty', 'request', 'revisit', 'revisit_nohdr', 'resource_empty', 'conversion', 'warcinfo', 'resource_one', 'resp_blank_body']


def BOUNDS(tier):
    return dict(menu=len(build.menu()), sizes=SIZES, streams=build.STREAMS, sequence_length=3, sequence_menu=len(SEQ))


def units(tier):
    out = [dict(t='menu', name=n) for n in build.menu()]
    for n in SIZED:
        for k in SIZES:
            out.append(dict(t='size', name=n, n=k))
    for a in SEQ:
        for b in SEQ:
            out.append(dict(t='seq', a=a, b=b, triple=True))
    out.append(dict(t='special'))
    out += [dict(t='scale', name=n) for n in build.scale()]
    names = list(build.menu())
    for a in names:
        out.append(dict(t='pairs', a=a, triple=tier == 'thorough'))
    for name in list(menu.warc_menu()) + list(menu.big_menu()):
        out.append(dict(t='copy', name=name))
    return out


def explore(u, run):
    if u['t'] == 'menu':
        spec = build.menu()[u['name']]
        for how in build.hows(spec):
            for version in ('1.0', '1.1'):
                for gzip in (False, True):
                    run(('one', u['name'], None, how, version, gzip))
    elif u['t'] == 'scale':
        for gzip in (False, True):
            for how in build.hows(build.get(u['name'])):
                run(('one', u['name'], None, how, '1.0', gzip))
            run(('seq', ['response', u['name'], 'resource'], gzip))
            run(('seq', [u['name'], u['name'], 'resp_empty'], gzip))
            run(('seq', (list(SEQ) + ['request_post', 'custom']) * 100 + [u['name']], gzip))
    elif u['t'] == 'size':
        for how in build.hows(build.menu()[u['name']]):
            run(('one', u['name'], u['n'], how, '1.0', True))
            run(('one', u['name'], u['n'], how, '1.1', False))
    elif u['t'] == 'seq':
        for gzip in (False, True):
            run(('seq', [u['a'], u['b']], gzip))
            for c in SEQ:
                run(('seq', [u['a'], u['b'], c], gzip))
    elif u['t'] == 'pairs':
        names = [n for n in build.menu() if n != 'auto']
        if u['a'] == 'auto':
            return
        for b in names:
            for gzip in (False, True):
                run(('seq', [u['a'], b], gzip))
                if u['triple']:
                    for c in names:
                        run(('seq', [u['a'], b, c], gzip))
    elif u['t'] == 'copy':
        for mode in ('plain', 'gz'):
            for after in (None, 'response', 'resource'):
                for gzip in (False, True):
                    for partial in (0, 1):
                        run(('copy', u['name'], mode, after, gzip, partial))
    else:
        for version in (None, '1.0', '1.1', 'WARC/1.0', 'WARC/1.1', 1.0, 1.1):
            for gzip in (False, True):
                run(('special', version, gzip))


def write(specs, how, kind, known, version, gzip):
    from warcio.warcwriter import WARCWriter
    out = io.BytesIO()
    w = WARCWriter(out, gzip=gzip, warc_version=version)
    for i, s in enumerate(specs):
        h = how if how in build.hows(s) else build.hows(s)[0]
        w.write_record(build.build(w, s, h, kind, known, uid=i))
    return out.getvalue()


def read(data, specs, exps):
    from warcio.archiveiterator import ArchiveIterator
    it = ArchiveIterator(io.BytesIO(data))
    n = 0
    for record in it:
        require(n < len(specs), 'more records read than written')
        build.check_read(record, specs[n], exps[n], 'record %d: ' % n)
        n += 1
    same(n, len(specs), 'number of records read')
    same(it.err_count, 0, 'iterator errors')


def run_case(case):
    if case[0] == 'one':
        _, name, size, how, version, gzip = case
        spec = build.get(name)
        if size is not None:
            spec = spec.with_body(ref.pat(size, 7))
        first = None
        kinds = [k for k in build.STREAMS if len(spec.body) <= 5000 or k != 'short1']
        steps = 0
        for known in (True, False):
            exp = build.expect(spec, version, 0, known=known)
            for kind in kinds:
                if kind == 'limit' and False:
                    continue
                data = write([spec], how, kind, known, version, gzip)
                steps += 1
                recs = ref.parse_written(data, gzip)
                what = 'stream %s, length %s: ' % (kind, 'known' if known else 'unknown')
                same(len(recs), 1, what + 'records written')
                build.check_written(recs[0], spec, exp, what)
                if spec.auto:
                    continue
                if first is None:
                    first = data
                    read(data, [spec], [exp])
                elif known or not any(n.lower() in ('content-type', 'warc-payload-digest', 'warc-block-digest') for n, v in spec.hdict):
                    same(data, first, what + 'written bytes, compared to an in-memory stream of known length')
        return Out((name, size, how), transitions=steps)
    if case[0] == 'seq':
        _, names, gzip = case
        specs = [build.get(n) for n in names]
        exps = [build.expect(s, '1.0', i) for i, s in enumerate(specs)]
        data = write(specs, 'parsed', 'bytes', True, '1.0', gzip)
        recs = ref.parse_written(data, gzip)
        same(len(recs), len(specs), 'records written')
        for r, s, e in zip(recs, specs, exps):
            build.check_written(r, s, e)
        same(data, b''.join(write_one(s, i, gzip) for i, s in enumerate(specs)), 'the file and the records written alone')
        read(data, specs, exps)
        return Out(tuple(names), transitions=len(names))
    if case[0] == 'copy':
        return copy(*case[1:])
    return special(*case[1:])


def copy(name, mode, after, gzip, partial):
    """records read from an archive and written to another one"""
    from warcio.archiveiterator import ArchiveIterator
    from warcio.warcwriter import WARCWriter
    m = dict(menu.warc_menu(), **menu.big_menu())
    recs = [m[name]] + ([m[after]] if after else [])
    data, spans = ref.layout(recs, mode)
    out = io.BytesIO()
    w = WARCWriter(out, gzip=gzip)
    it = ArchiveIterator(io.BytesIO(data))
    for record in it:
        w.write_record(record)
        if partial:
            it.get_record_length()
    got = ref.parse_written(out.getvalue(), gzip)
    same(len(got), len(recs), 'records copied')
    for g, r in zip(got, recs):
        want = [(n.lower(), v) for n, v in r.headers]
        head = r.httpblock
        if r.http is not None:
            try:
                head.decode('ascii')
            except UnicodeDecodeError:
                # encoded (C14): only the rest is judged here
                head = ref.split_http(g.block)[0]
        block = head + r.body
        if r.rec_type == 'revisit' and r.http is not None:
            block = head
        same(g.block, block, 'block copied')
        want = [(n, v) for n, v in want if n != 'content-length'] + [('content-length', str(len(block))), ('warc-block-digest', ref.sha1_32(block))]
        if r.rec_type not in ('warcinfo', 'revisit'):
            want.append(('warc-payload-digest', ref.sha1_32(r.body)))
        same(g.version, r.version, 'version copied')
        same(sorted((n.lower(), v) for n, v in g.headers), sorted(want), 'WARC headers copied')
    return Out((name, mode), transitions=len(recs))


def write_one(spec, i, gzip):
    from warcio.warcwriter import WARCWriter
    out = io.BytesIO()
    w = WARCWriter(out, gzip=gzip)
    w.write_record(build.build(w, spec, build.hows(spec)[-1], 'bytes', True, uid=i))
    return out.getvalue()


def special(version, gzip):
    """warcinfo and revisit records made by their own methods; no payload at all"""
    from collections import OrderedDict
    from warcio.warcwriter import WARCWriter
    from warcio.statusandheaders import StatusAndHeaders
    want_version = 'WARC/1.1' if '1.1' in str(version) else 'WARC/1.0'
    out = io.BytesIO()
    w = WARCWriter(out, gzip=gzip, warc_version=version)
    info = OrderedDict([('software', 'mc'), ('empty', ''), ('n', 5), ('u', 'caf\xe9'), ('none', None)])
    recs = [w.create_warcinfo_record('file.warc', info), w.create_warcinfo_record('', {}),
            w.create_revisit_record('http://example.com/', 'sha1:ABC', 'http://example.com/o', '2019-01-01T00:00:00Z'),
            w.create_revisit_record('http://example.com/', 'sha1:ABC', 'http://example.com/o', '2019-01-01T00:00:00Z', StatusAndHeaders(
                '200 OK', [('A', 'b')], protocol='HTTP/1.0'), OrderedDict([('WARC-IP-Address', '1.2.3.4')])),
            w.create_warc_record('http://example.com/n', 'metadata'),
            w.create_warc_record('http://example.com/n', 'response', http_headers=StatusAndHeaders('200 OK', [], protocol='HTTP/1.0'))]
    for r in recs:
        w.write_record(r)
    got = ref.parse_written(out.getvalue(), gzip)
    same(len(got), 6, 'records written')
    blocks = ['software: mc\r\nn: 5\r\nu: caf\xe9\r\n'.encode('utf-8'), b'', b'', b'HTTP/1.0 200 OK\r\nA: b\r\n\r\n', b'', b'HTTP/1.0 200 OK\r\n\r\n']
    for g, b, r in zip(got, blocks, recs):
        same(g.version, want_version, 'version')
        same(g.block, b, 'block')
        same(g.get('WARC-Block-Digest'), ref.sha1_32(b), 'block digest')
        same(g.headers, [tuple(h) for h in r.rec_headers.headers], 'headers written and held')
        names = [n.lower() for n, v in g.headers]
        require(len(set(names)) == len(names), 'repeated header in %s', names)
        require(build.AUTO['warc-record-id'].match(g.get('WARC-Record-ID')), 'record id %s', g.get('WARC-Record-ID'))
        d = g.get('WARC-Date')
        require(build.AUTO['warc-date'].match(d) and ('.' in d) == (want_version == 'WARC/1.1'), 'date %s for %s', d, want_version)
    same(len({g.get('WARC-Record-ID') for g in got}), 6, 'distinct record ids')
    same([(g.get('WARC-Type'), g.get('WARC-Filename'), g.get('WARC-Target-URI'), g.get('WARC-Refers-To-Target-URI'), g.get('WARC-Refers-To-Date'),
           g.get('WARC-IP-Address'), g.get('Content-Type')) for g in got], [
        ('warcinfo', 'file.warc', None, None, None, None, 'application/warc-fields'),
        ('warcinfo', None, None, None, None, None, 'application/warc-fields'),
        ('revisit', None, 'http://example.com/', 'http://example.com/o', '2019-01-01T00:00:00Z', None, 'application/http; msgtype=response'),
        ('revisit', None, 'http://example.com/', 'http://example.com/o', '2019-01-01T00:00:00Z', '1.2.3.4', 'application/http; msgtype=response'),
        ('metadata', None, 'http://example.com/n', None, None, None, 'application/warc-fields'),
        ('response', None, 'http://example.com/n', None, None, None, 'application/http; msgtype=response')], 'record fields')
    for g in got[2:4]:
        same(g.get('WARC-Profile'), 'http://netpreserve.org/warc/%s/revisit/identical-payload-digest' % want_version[5:], 'revisit profile')
        same(g.get('WARC-Payload-Digest'), 'sha1:ABC', 'revisit payload digest')
    return Out(str(version))
